------------------------------- MODULE MC_Builder -------------------------------
(* All short histories of builder calls: what is there is what was asked for      *)
(* (C02), and the constraints sit on exactly the samples that were asked for,     *)
(* whatever the counts (C03).                                                     *)
EXTENDS Problem, TLC
CONSTANTS MaxW, Calls
VARIABLES b, asked, given, n
vars == <<b, asked, given, n>>
\* asked: <<constraint, from, to>>; given: explicit counts since the last counts call, or <<-1>>
Con(j) == [t |-> "id", id |-> j]
Init == b = EmptyBuilder /\ asked = {} /\ given = <<-1>> /\ n = 0
WptCon == \E i \in 0..MaxW : /\ b' = Do(b, [op |-> "wpt_con", i |-> i, c |-> Con(n)])
                             /\ asked' = asked \cup {<<Con(n), i, i>>} /\ UNCHANGED given
SegCon == \E i, j \in 0..MaxW : i < j /\ b' = Do(b, [op |-> "seg_con", i |-> i, j |-> j, c |-> Con(n)])
                             /\ asked' = asked \cup {<<Con(n), i, j>>} /\ UNCHANGED given
Guess == \E i \in 0..MaxW : /\ b' = Do(b, [op |-> "wpt_guess", i |-> i, p |-> <<n, n, [deg |-> 0]>>]) /\ UNCHANGED <<asked, given>>
SegGuess == \E i \in 0..(MaxW - 1), q \in 0..2 :
               /\ b' = Do(b, [op |-> "seg_guess", i |-> i, pts |-> [z \in 1..q |-> <<n, z, [deg |-> 0]>>]])
               /\ UNCHANGED <<asked, given>>
Counts == \E len \in 0..(MaxW + 1) : /\ len >= Len(b.wpts) - 1
               /\ \E a \in 0..2 : LET ns == [i \in 1..len |-> (i + a) % 3] IN b' = Do(b, [op |-> "counts", ns |-> ns]) /\ given' = ns
               /\ UNCHANGED asked
Next == n < Calls /\ n' = n + 1 /\ (WptCon \/ SegCon \/ Guess \/ SegGuess \/ Counts)
Spec == Init /\ [][Next]_vars

Shape == /\ Len(b.guess) = Len(b.wpts)
         /\ Len(b.counts) >= Len(b.wpts) - 1
         /\ ((given = <<-1>> /\ Len(b.wpts) > 0) => Complete(b))
         /\ \A i \in 1..Len(b.guess) : b.guess[i] # <<>>
CountsKept == /\ (given # <<-1>>) => \A i \in 1..Len(given) : b.counts[i] = given[i]
              /\ \A i \in 1..Len(b.counts) : (given = <<-1>> \/ i > Len(given)) => b.counts[i] = DefaultCount
SamplesAsked ==
    LET counts == [i \in 1..(IF Len(b.wpts) = 0 THEN 0 ELSE Len(b.wpts) - 1) |-> b.counts[i] % 7]   \* small numbers
        bb == [b EXCEPT !.counts = counts]
    IN Placed(bb) = UNION {{<<a[1], s>> : s \in Stretch(counts, a[2], a[3])} : a \in asked}
\* nothing is lost, waypoints are never taken away, other waypoints' guesses stay
Grows == [][/\ Len(b'.wpts) >= Len(b.wpts)
            /\ \A i \in 1..Len(b.wpts) : /\ SubSeq(b'.wpts[i].w, 1, Len(b.wpts[i].w)) = b.wpts[i].w
                                         /\ SubSeq(b'.wpts[i].s, 1, Len(b.wpts[i].s)) = b.wpts[i].s
                                         /\ Len(b'.guess[i]) >= Len(b.guess[i])]_vars
===============================================================================
