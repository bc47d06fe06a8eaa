--------------------------------- MODULE Traj ---------------------------------
(***************************************************************************)
(* Making trajectories (the records Robot talks about) that obey the motion *)
(* equations and the dynamics: exact forward simulation on integers.        *)
(***************************************************************************)
EXTENDS Robot

\* the heading of unit uc that lies K angle units from heading h0 (exact for the
\* K for which it is an integer vector: ang = <<0,1,1>> always, <<4,3,5>> and
\* <<3,4,5>> with uc = 25 and h0 = <<25, 0>> for |K| <= 2)
TurnBy(h0, ang, K) ==
    LET a == IF K >= 0 THEN ang ELSE <<ang[1], -ang[2], ang[3]>>
        j == IF K >= 0 THEN K ELSE -K
        v == RotPow(h0, a, j)  r == Pow(ang[3], j)
    IN <<v[1] \div r, v[2] \div r>>

RECURSIVE Accum(_, _, _)
\* <<s0, s0 + f[2] dt[2], ...>>: values of the quantity whose rate at sample n is f[n + 1]
Accum(s0, f, dt) ==
    IF Len(f) = 1 THEN <<s0>>
    ELSE LET p == Accum(s0, SubSeq(f, 1, Len(f) - 1), dt) IN Append(p, p[Len(p)] + f[Len(f)] * dt[Len(f)])
Diffs(v) == [n \in 1..Len(v) |-> IF n = 1 THEN 0 ELSE v[n] - v[n - 1]]

\* per-sample time steps (entry n + 1 belongs to the interval that ends at sample n; entry 1 unused)
StepOf(counts, dt) == [n \in 1..Total(counts) |-> IF n = 1 THEN 0 ELSE dt[SegmentOf(counts, n - 2)]]

\* A, AL: acceleration and angular acceleration per sample; s0 the state at sample 0;
\* o: [uc, ud, ang]; F: forces per sample <<fx, fy>>
Simulate(counts, dt, s0, A, AL, F, o) ==
    LET D  == StepOf(counts, dt)
        ax == [n \in 1..Len(A) |-> A[n][1]]  ay == [n \in 1..Len(A) |-> A[n][2]]
        vx == Accum(s0.vx, ax, D)  vy == Accum(s0.vy, ay, D)
        w  == Accum(s0.w, AL, D)   K  == Accum(0, w, D)
        H  == [n \in 1..Len(A) |-> TurnBy(s0.h, o.ang, K[n])]
    IN [x |-> Accum(s0.x, vx, D), y |-> Accum(s0.y, vy, D), vx |-> vx, vy |-> vy, ax |-> ax, ay |-> ay,
        w |-> w, al |-> AL, c |-> [n \in 1..Len(H) |-> H[n][1]], s |-> [n \in 1..Len(H) |-> H[n][2]],
        fx |-> [n \in 1..Len(A) |-> F[n][1]], fy |-> [n \in 1..Len(A) |-> F[n][2]],
        dt |-> dt, uc |-> o.uc, ud |-> o.ud, ang |-> o.ang]
===============================================================================
