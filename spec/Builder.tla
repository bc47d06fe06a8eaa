-------------------------------- MODULE Builder --------------------------------
(***************************************************************************)
(* The path builder (C02): its state and what each call does to it.         *)
(*   wpts[w+1]  constraints at waypoint w (field w) and on the segment that *)
(*              ends at waypoint w (field s)                                *)
(*   guess[w+1] guess points of the segment that ends at w, the last one    *)
(*              being waypoint w's own guess                                *)
(*   counts     control intervals per segment                               *)
(*   bump       bumper sets;  drive  drivetrain;  cbs  callbacks, slow  time they take, *)
(*              asks  whether one of them requests cancellation            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

NoDrive  == [mass |-> 0, moi |-> 0, mods |-> <<>>]
Origin   == <<0, 0, [deg |-> 0]>>
EmptyBuilder == [wpts |-> <<>>, guess |-> <<>>, counts |-> <<>>, bump |-> <<>>, drive |-> NoDrive, cbs |-> <<>>, slow |-> 0, asks |-> FALSE]
DefaultCount == 40

\* waypoint w (0-based) and all before it exist
Mention(b, w) ==
    LET have == Len(b.wpts)  want == IF w + 1 > have THEN w + 1 ELSE have
        segs == want - 1
    IN IF want = have THEN b
       ELSE [b EXCEPT
         !.wpts   = [i \in 1..want |-> IF i <= have THEN @[i] ELSE [w |-> <<>>, s |-> <<>>]],
         !.guess  = [i \in 1..want |-> IF i <= have THEN @[i] ELSE <<Origin>>],
         !.counts = [i \in 1..(IF Len(@) > segs THEN Len(@) ELSE segs) |->
                        IF i <= Len(@) THEN @[i] ELSE DefaultCount]]

AddWpt(b, w, c) == LET m == Mention(b, w) IN [m EXCEPT !.wpts[w + 1].w = Append(@, c)]
\* constraint c from waypoint i through waypoint j, everything in between
AddRange(b, i, j, c) ==
    LET m == Mention(b, j) IN
    [m EXCEPT !.wpts = [k \in 1..Len(@) |->
        [w |-> IF k - 1 >= i /\ k - 1 <= j THEN Append(@[k].w, c) ELSE @[k].w,
         s |-> IF k - 1 > i /\ k - 1 <= j THEN Append(@[k].s, c) ELSE @[k].s]]]
SetGuess(b, w, p) == LET m == Mention(b, w) IN [m EXCEPT !.guess[w + 1][Len(m.guess[w + 1])] = p]

\* one constraint per bumper set that exists now; at one waypoint (j < 0) or over a range
Obs(bump, c) == [t |-> "obs", bpts |-> bump.pts, opts |-> c.pts, m |-> bump.sd + c.sd]
RECURSIVE WithObstacle(_, _, _, _, _)
WithObstacle(b, k, c, i, j) ==
    IF k > Len(b.bump) THEN b
    ELSE WithObstacle(IF j < 0 THEN AddWpt(b, i, Obs(b.bump[k], c)) ELSE AddRange(b, i, j, Obs(b.bump[k], c)),
                      k + 1, c, i, j)

Do(b, c) ==
    CASE c.op = "pose_wpt"  -> SetGuess(AddWpt(b, c.i, [t |-> "pose", x |-> c.x, y |-> c.y, h |-> c.h]),
                                        c.i, <<c.x, c.y, c.h>>)
      [] c.op = "trans_wpt" -> SetGuess(AddWpt(b, c.i, [t |-> "trans", x |-> c.x, y |-> c.y]),
                                        c.i, <<c.x, c.y, IF "h" \in DOMAIN c THEN c.h ELSE [deg |-> 0]>>)
      [] c.op = "wpt_guess" -> SetGuess(b, c.i, c.p)
      [] c.op = "seg_guess" -> LET m == Mention(b, c.i + 1) IN
                               [m EXCEPT !.guess[c.i + 2] = c.pts \o @]
      [] c.op = "bumpers"   -> [b EXCEPT !.bump = Append(@, [sd |-> c.sd, pts |-> c.pts])]
      [] c.op = "wpt_obs"   -> WithObstacle(b, 1, c, c.i, -1)
      [] c.op = "seg_obs"   -> WithObstacle(b, 1, c, c.i, c.j)
      [] c.op = "wpt_con"   -> AddWpt(b, c.i, c.c)
      [] c.op = "seg_con"   -> AddRange(b, c.i, c.j, c.c)
      [] c.op = "counts"    -> [b EXCEPT !.counts = c.ns]
      [] c.op = "drive"     -> [b EXCEPT !.drive = [f \in DOMAIN c \ {"op", "b"} |-> c[f]]]
      [] c.op = "cb"        -> [b EXCEPT !.cbs = Append(@, c.id), !.slow = @ + (IF "takes" \in DOMAIN c THEN c.takes ELSE 0),
                                      !.asks = @ \/ ("asks" \in DOMAIN c /\ c.asks)]

BuilderOps == {"pose_wpt", "trans_wpt", "wpt_guess", "seg_guess", "bumpers", "wpt_obs", "seg_obs",
               "wpt_con", "seg_con", "counts", "drive", "cb"}

\* counts and waypoints fit together
Complete(b) == Len(b.wpts) >= 1 /\ Len(b.counts) = Len(b.wpts) - 1
===============================================================================
