-------------------------------- MODULE MC_Cons --------------------------------
(* What the constraints mean, against first principles: a distance from a segment  *)
(* is a distance from all its points, tolerances and distances are monotone, and   *)
(* avoidance does not depend on how the shapes are listed or the field is turned.   *)
EXTENDS ConstraintSem
CONSTANTS L, MaxD
VARIABLES p, a, b, d, u, phase
vars == <<p, a, b, d, u, phase>>
P == {<<x, y>> : x, y \in (-L)..L}
Init == p \in P /\ a \in P /\ b = <<0, 0>> /\ d = 0 /\ u = 1 /\ phase = 0
Next == phase = 0 /\ phase' = 1 /\ b' \in P /\ d' \in 0..MaxD /\ u' \in {1, 5} /\ UNCHANGED <<p, a>>
Spec == Init /\ [][Next]_vars

\* every point a + (k/n) (b - a); the one nearest to p is among them
Everywhere(q, r, s, e) ==
    LET v == Sub(s, r)  n == IF Norm2(v) = 0 THEN 1 ELSE Norm2(v) IN
    \A k \in 0..n : Norm2(Sub(Scale(n, Sub(q, r)), Scale(k, v))) >= Sq(e * n)
Segment == /\ (SegmentApart(p, a, b, d, u) = 1) = Everywhere(p, a, b, d)
           /\ SegmentApart(p, a, b, d, u) = SegmentApart(p, b, a, d, u)
           /\ (a = b => SegmentApart(p, a, b, d, u) = PointsApart(p, a, d, u))
           /\ (d > 0 /\ SegmentApart(p, a, b, d, u) = 1 => SegmentApart(p, a, b, d - 1, u) = 1)
Tols == <<0, 30, 45, 60, 90, 120, 135, 150, 180>>
Tolerance == (p # <<0, 0>> /\ a # <<0, 0>>) =>
    /\ \A i \in 1..(Len(Tols) - 1) : Within(p, a, Tols[i]) => Within(p, a, Tols[i + 1])
    /\ \A i \in 1..Len(Tols) : Within(p, a, Tols[i]) = Within(a, p, Tols[i])
    \* from ahead, within t of one side is outside of 180 - t of the other, boundaries aside
    /\ \A i \in 1..Len(Tols) : Within(p, a, Tols[i]) \/ Within(p, Scale(-1, a), 180 - Tols[i])
    /\ Within(p, p, 0) /\ ~Within(p, Scale(-1, p), 150) /\ Within(p, <<-p[2], p[1]>>, 90) /\ ~Within(p, <<-p[2], p[1]>>, 60)

\* poses and shapes out of the same points
St(at, h) == [x |-> at[1], y |-> at[2], c |-> h[1], s |-> h[2], u |-> u]
H == IF u = 1 THEN <<0, 1>> ELSE <<3, 4>>
Turn(q) == <<-q[2], q[1]>>
TurnAll(s) == [i \in 1..Len(s) |-> Turn(s[i])]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Rotated(s) == Append(Tail(s), s[1])
Shapes == {<<p>>, <<p, a>>, <<p, a, b>>, <<a, p, <<1, -1>>, b>>}
Bump == {<<(<<0, 0>>)>>, <<(<<1, 0>>), (<<-1, 0>>)>>, <<(<<1, 1>>), (<<-1, 1>>), (<<0, -1>>)>>}
Ask(bp, op) == Avoids(St(<<1, 0>>, H), bp, op, d)
Again(s) == <<s[1]>> \o s
Listing == \A op \in Shapes, bp \in Bump : LET v == Ask(bp, op) IN
    /\ Ask(bp, Rev(op)) = v /\ Ask(Rev(bp), op) = v
    /\ (Len(op) >= 3 => Ask(bp, Rotated(op)) = v) /\ (Len(bp) >= 3 => Ask(Rotated(bp), op) = v)
    /\ Ask(bp, Again(op)) = v /\ Ask(Again(bp), op) = v
    /\ Ask(bp, Append(op, op[1])) = v
    \* the whole scene turned by a quarter
    /\ Avoids(St(<<0, 1>>, Turn(H)), bp, TurnAll(op), d) = v
    \* a greater distance is harder to keep
    /\ (v = 0 => Avoids(St(<<1, 0>>, H), bp, op, d + 1) = 0)
    \* nothing is ever too near to keep no distance
    /\ (d = 0 => v = 1)
\* not so: that it is enough to keep the corners apart
CornersEnough == \A op \in Shapes, bp \in Bump : All({PointsApart(OnField(St(<<1, 0>>, H), bp[i]), Scale(u, op[j]), d * u, u) : i \in 1..Len(bp), j \in 1..Len(op)})
                                                  = Avoids(St(<<1, 0>>, H), bp, op, d)
===============================================================================
