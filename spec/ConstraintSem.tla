----------------------------- MODULE ConstraintSem -----------------------------
(***************************************************************************)
(* What each constraint asks of one robot state (C04), and what an obstacle *)
(* asks of a pose given a set of bumpers (C05), in exact integer            *)
(* arithmetic.                                                              *)
(*                                                                          *)
(* A state is [x, y, c, s, u, vx, vy, w, ang, ax, ay]: position; heading as *)
(* the unit vector (c/u, s/u) with c^2 + s^2 = u^2; velocity; angular       *)
(* velocity w in radians per second, or in units of the angle ang = <<p, q, *)
(* r>> (cosine p/r, sine q/r; <<>>: radians); acceleration.                 *)
(*                                                                          *)
(* Answers:  1  the state is allowed (the boundary included)                *)
(*           0  the state is not allowed                                    *)
(*           2  not allowed, but too close to the boundary to be told apart *)
(*              in floating point                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CAbs(x) == IF x < 0 THEN -x ELSE x
Sq(x) == x * x
All(S) == IF 0 \in S THEN 0 ELSE IF 2 \in S THEN 2 ELSE 1
Is(b) == IF b THEN 1 ELSE 0

Sub(p, q) == <<p[1] - q[1], p[2] - q[2]>>
Dot2(p, q) == p[1] * q[1] + p[2] * q[2]
Cross2(p, q) == p[1] * q[2] - p[2] * q[1]
Norm2(p) == Dot2(p, p)
Scale(k, p) == <<k * p[1], k * p[2]>>

AtLeast(a, b) == IF a >= b THEN 1 ELSE 0

\* u times where the robot-fixed point r is on the field in state st
OnField(st, r) == <<st.u * st.x + st.c * r[1] - st.s * r[2],
                    st.u * st.y + st.s * r[1] + st.c * r[2]>>

\* distance of the points p, q is at least d (all in 1/u units)
PointsApart(p, q, d, u) == AtLeast(Norm2(Sub(p, q)), Sq(d))
\* distance of point p from the line segment a-b is at least d
SegmentApart(p, a, b, d, u) ==
    LET e == Sub(b, a)  t == Dot2(Sub(p, a), e)  n == Norm2(e) IN
    IF t <= 0 THEN PointsApart(p, a, d, u)
    ELSE IF t >= n THEN PointsApart(p, b, d, u)
    ELSE AtLeast(Sq(Cross2(Sub(p, a), e)), Sq(d) * n)

\* direction of an angle given as a vector, or in multiples of 90 degrees
Dir(a) == IF "cs" \in DOMAIN a THEN a.cs
          ELSE LET k == (a.deg \div 90) % 4 IN
               <<(<<1, 0, -1, 0>>)[k + 1], (<<0, 1, 0, -1>>)[k + 1]>>

\* cos^2 of a tolerance in degrees as <<numerator, denominator>>
Cos2(t) == CASE t \in {0, 180} -> <<1, 1>> [] t \in {30, 150} -> <<3, 4>>
             [] t \in {45, 135} -> <<1, 2>> [] t \in {60, 120} -> <<1, 4>>
             [] t = 90 -> <<0, 1>>
\* the angle between h and d is at most t degrees (d nonzero)
Within(h, d, t) ==
    LET D == Dot2(h, d)  P == Norm2(h) * Norm2(d)  k == Cos2(t) IN
    IF t >= 180 THEN TRUE
    ELSE IF t <= 90 THEN D >= 0 /\ D * D * k[2] >= k[1] * P
    ELSE D >= 0 \/ D * D * k[2] <= k[1] * P

\* thousandths of an angle unit, rounded down
PhiMilli(ang) == CASE ang = <<0, 1, 1>> -> 1570 [] ang = <<4, 3, 5>> -> 643 [] ang = <<3, 4, 5>> -> 927
\* |w| <= m
TurnRate(w, ang, m) ==
    IF ang = <<>> THEN Is(CAbs(w) <= m)
    ELSE IF CAbs(w) * (PhiMilli(ang) + 1) <= m * 1000 THEN 1
    ELSE IF CAbs(w) * PhiMilli(ang) > m * 1000 THEN 0 ELSE 2

\* magnitude bound; zero means exactly zero
MaxNorm(p, m) == Norm2(p) <= m * m

Edges(pts) == IF Len(pts) < 2 THEN {}
              ELSE {<<pts[i], pts[i + 1]>> : i \in 1..(Len(pts) - 1)}
                   \cup (IF Len(pts) >= 3 THEN {<<pts[Len(pts)], pts[1]>>} ELSE {})
Range(s) == {s[i] : i \in 1..Len(s)}

\* the bumper shape bp keeps distance d from the obstacle shape op
Avoids(st, bp, op, d) ==
    LET B == [i \in 1..Len(bp) |-> OnField(st, bp[i])]
        O == [i \in 1..Len(op) |-> Scale(st.u, op[i])]
        D == d * st.u
    IN All({PointsApart(p, q, D, st.u) : p \in Range(B), q \in Range(O)}
           \cup {SegmentApart(p, e[1], e[2], D, st.u) : p \in Range(B), e \in Edges(O)}
           \cup {SegmentApart(p, e[1], e[2], D, st.u) : p \in Range(O), e \in Edges(B)})

Opposite(st, h) == Cross2(<<st.c, st.s>>, h) = 0 /\ Dot2(<<st.c, st.s>>, h) < 0

Holds(c, st) ==
    CASE c.t = "angvel"  -> TurnRate(st.w, st.ang, c.m)
      [] c.t = "linvel"  -> Is(MaxNorm(<<st.vx, st.vy>>, c.m))
      [] c.t = "linacc"  -> Is(MaxNorm(<<st.ax, st.ay>>, c.m))
      [] c.t = "veldir"  -> LET v == <<st.vx, st.vy>>  u == Dir(c.a) IN
                            Is(Cross2(v, u) = 0 /\ Dot2(v, u) >= 0)
      [] c.t = "pointat" -> Is(Within(<<st.c, st.s>>, Sub(c.f, <<st.x, st.y>>), c.m.deg))
      [] c.t = "pp"      -> PointsApart(OnField(st, c.r), Scale(st.u, c.f), c.m * st.u, st.u)
      [] c.t = "lp"      -> SegmentApart(Scale(st.u, c.f), OnField(st, c.r), OnField(st, c.r2), c.m * st.u, st.u)
      [] c.t = "pl"      -> SegmentApart(OnField(st, c.r), Scale(st.u, c.f), Scale(st.u, c.f2), c.m * st.u, st.u)
      [] c.t = "pose"    -> Is(st.x = c.x /\ st.y = c.y /\ LET h == Dir(c.h) IN
                               Cross2(<<st.c, st.s>>, h) = 0 /\ Dot2(<<st.c, st.s>>, h) > 0)
      [] c.t = "trans"   -> Is(st.x = c.x /\ st.y = c.y)
      [] c.t = "obs"     -> Avoids(st, c.bpts, c.opts, c.m)
===============================================================================
