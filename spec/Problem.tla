-------------------------------- MODULE Problem --------------------------------
(***************************************************************************)
(* The optimization problem a path stands for, as the set of trajectories   *)
(* it admits: which constraint restricts which sample (C03).                *)
(* A trajectory is a record of arrays (sample n at index n+1); c, s are in  *)
(* units of 1/uc; w and al in angle units if there is an ang.               *)
(***************************************************************************)
EXTENDS Layout, ConstraintSem, Builder

StateAt(t, n) ==
    [x |-> t.x[n + 1], y |-> t.y[n + 1], c |-> t.c[n + 1], s |-> t.s[n + 1],
     u |-> IF "uc" \in DOMAIN t THEN t.uc ELSE 1,
     vx |-> t.vx[n + 1], vy |-> t.vy[n + 1], w |-> t.w[n + 1],
     ang |-> IF "ang" \in DOMAIN t THEN t.ang ELSE <<>>,
     ax |-> t.ax[n + 1], ay |-> t.ay[n + 1]]

\* pairs <<constraint, sample>>: waypoint constraints at the waypoint's sample,
\* segment constraints at every sample of the segment's own block
Placed(b) ==
    UNION {{<<c, WptSample(b.counts, w)>> : c \in Range(b.wpts[w + 1].w)}
           \cup {<<c, n>> : c \in Range(b.wpts[w + 1].s), n \in Owned(b.counts, w)}
             : w \in 0..(Len(b.wpts) - 1)}

\* does the motion part t satisfy every requested constraint?
Admits(b, t) == All({Holds(p[1], StateAt(t, p[2])) : p \in Placed(b)})
\* the constraints that t violates, and where
Violated(b, t) == {p \in Placed(b) : Holds(p[1], StateAt(t, p[2])) = 0}
===============================================================================
