-------------------------------- MODULE MC_Guess --------------------------------
(* All guess-point layouts up to MaxW segments of up to MaxN intervals with up to  *)
(* MaxP points each: the stretches cover every sample once, join up, and reach     *)
(* every waypoint's guess at its sample (C06).                                     *)
EXTENDS Guess
CONSTANTS MaxW, MaxN, MaxP
VARIABLES counts, guess
vars == <<counts, guess>>
Pts(w, m) == [i \in 1..m |-> <<w, i, [deg |-> 0]>>]
Init == counts = <<>> /\ guess = <<Pts(0, 1)>>
Next == /\ Len(counts) < MaxW
        /\ \E n \in 0..MaxN, m \in 1..MaxP :
              counts' = Append(counts, n) /\ guess' = Append(guess, Pts(Len(counts) + 1, m))
Spec == Init /\ [][Next]_vars
Good == StretchesOK(guess, counts)
===============================================================================
