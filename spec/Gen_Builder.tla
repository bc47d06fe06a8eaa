------------------------------- MODULE Gen_Builder -------------------------------
(* Random histories of builder calls (C02), with every part of the builder's      *)
(* observable state asked for along the way.                                      *)
EXTENDS Builder, GenIO
CONSTANTS Calls, MaxW
VARIABLES b, hist, k, m, n, done
vars == <<b, hist, k, m, n, done>>

Lane(j) == [t |-> "pp", r |-> <<0, 0>>, f |-> <<0, 10 * j>>, m |-> 1]
PoseHead == [cs |-> <<3, 4>>]
W(z) == Pick({0, 1, 2, 3, MaxW, Pick(0..MaxW)})
Seg(z) == LET i == Pick(0..(MaxW - 1)) IN <<i, Pick((i + 1)..MaxW)>>
\* (guess points often at the same place)
DegP(z) == IF Pick(1..2) = 1 THEN <<3, 4, [deg |-> 15 * Pick(-12..12)]>> ELSE <<Pick(-20..20), Pick(-20..20), [deg |-> 15 * Pick(-12..12)]>>
Mods(z) == [i \in 1..Pick(0..3) |-> [x |-> Pick(-9..9), y |-> Pick(-9..9), r |-> Pick(1..9), w |-> Pick(1..9), t |-> Pick(1..9)]]
Counts == LET segs == IF Len(b.wpts) = 0 THEN 0 ELSE Len(b.wpts) - 1
              len == Pick({segs, segs, segs + 1, segs + 2}) IN [i \in 1..len |-> Pick(1..9)]

Kinds == <<"wpt_con", "wpt_con", "seg_con", "seg_con", "pose_wpt", "trans_wpt", "wpt_guess", "wpt_guess", "seg_guess", "seg_guess",
           "bumpers", "wpt_obs", "seg_obs", "counts", "counts", "drive", "cb">>
Cmd(kind) ==
    CASE kind = "wpt_con"   -> [op |-> kind, i |-> W(0), c |-> Lane(k)]
      [] kind = "seg_con"   -> LET s == Seg(0) IN [op |-> kind, i |-> s[1], j |-> s[2], c |-> Lane(k)]
      [] kind = "pose_wpt"  -> [op |-> kind, i |-> W(0), x |-> 1000 + m, y |-> m, h |-> PoseHead]
      [] kind = "trans_wpt" -> IF Pick({TRUE, FALSE}) THEN [op |-> kind, i |-> W(0), x |-> 1000 + m, y |-> m]
                               ELSE [op |-> kind, i |-> W(0), x |-> 1000 + m, y |-> m, h |-> [deg |-> 15 * Pick(-12..12)]]
      [] kind = "wpt_guess" -> [op |-> kind, i |-> W(0), p |-> DegP(0)]
      [] kind = "seg_guess" -> [op |-> kind, i |-> Pick(0..(MaxW - 1)), pts |-> [q \in 1..Pick(0..3) |-> DegP(0)]]
      [] kind = "bumpers"   -> [op |-> kind, sd |-> 1, pts |-> << <<0, 0>> >>]
      [] kind = "wpt_obs"   -> [op |-> kind, i |-> W(0), sd |-> 0, pts |-> << <<0, 10 * k>> >>]
      [] kind = "seg_obs"   -> LET s == Seg(0) IN [op |-> kind, i |-> s[1], j |-> s[2], sd |-> 0, pts |-> << <<0, 10 * k>> >>]
      [] kind = "counts"    -> [op |-> kind, ns |-> Counts]
      [] kind = "drive"     -> [op |-> kind, mass |-> Pick(1..9), moi |-> Pick(1..9), mods |-> Mods(0)]
      [] kind = "cb"        -> [op |-> kind, id |-> k]
Path == [op |-> "q_path", lanes |-> Calls + 1, targets |-> Calls + 1]
Queries(bb) == <<Path, [op |-> "q_counts"], [op |-> "q_drive"], [op |-> "q_cbs"]>>
               \o (IF Complete(bb) THEN <<[op |-> "q_guess"]>> ELSE <<>>)
Init == b = EmptyBuilder /\ hist = Queries(EmptyBuilder) /\ k = 1 /\ m = 1 /\ n = 0 /\ done = FALSE
\* (bound by \E, not LET: an action's LET would draw anew at every mention)
Call == /\ n < Calls
        /\ \E kind \in {PickFrom(Kinds)} :
           \* an obstacle without bumpers says nothing, not even that a waypoint exists
           \E c \in {Cmd(IF kind \in {"wpt_obs", "seg_obs"} /\ b.bump = <<>> THEN "bumpers" ELSE kind)} :
              /\ b' = Do(b, c)
              /\ hist' = hist \o <<c>> \o (IF n + 1 = Calls \/ Pick(1..3) = 1 THEN Queries(Do(b, c)) ELSE <<>>)
        /\ k' = k + 1 /\ m' = m + 1 /\ n' = n + 1 /\ UNCHANGED done
Fin == n = Calls /\ ~done /\ done' = TRUE /\ EmitCmds(hist) /\ UNCHANGED <<b, hist, k, m, n>>
Next == Call \/ Fin
Spec == Init /\ [][Next]_vars
===============================================================================
