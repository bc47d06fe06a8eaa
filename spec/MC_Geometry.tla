------------------------------ MODULE MC_Geometry ------------------------------
(* The laws of plane geometry hold for the specification's operations.             *)
EXTENDS Geometry
CONSTANT M
VARIABLES a, b, u, v, w, k
Rs == {R(c[1], c[2], c[3]) : c \in {<<1, 0, 1>>, <<0, 1, 1>>, <<-1, 0, 1>>, <<0, -1, 1>>, <<3, 4, 5>>, <<-4, 3, 5>>, <<5, -12, 13>>}}
Ts == {T(x, y, d) : x \in -M..M, y \in -M..M, d \in {1, 2}}
Ss == {<<0, 1>>, <<1, 3>>, <<-2, 1>>}
Init == u \in Ts /\ v \in Ts /\ a = <<1, 0, 1>> /\ b = <<1, 0, 1>> /\ w = <<0, 0, 1>> /\ k = <<1, 1>>
Next == w = <<0, 0, 1>> /\ a' \in Rs /\ b' \in Rs /\ w' \in {<<-1, 2, 3>>} /\ k' \in Ss /\ UNCHANGED <<u, v>>
Spec == Init /\ [][Next]_<<a, b, u, v, w, k>>
SAdd(x, y) == S(x[1] * y[2] + y[1] * x[2], x[2] * y[2])
SMul(x, y) == S(x[1] * y[1], x[2] * y[2])
VectorSpace == /\ TAdd(u, v) = TAdd(v, u) /\ TAdd(TAdd(u, v), w) = TAdd(u, TAdd(v, w))
               /\ TAdd(u, Zero) = u /\ TSub(u, u) = Zero /\ TSub(u, v) = TNeg(TSub(v, u))
               /\ TMul(TAdd(u, v), k) = TAdd(TMul(u, k), TMul(v, k))
               /\ (k[1] # 0 => TDiv(TMul(u, k), k) = u)
Bilinear    == /\ Dot(u, v) = Dot(v, u) /\ Dot(TAdd(u, w), v) = SAdd(Dot(u, v), Dot(w, v))
               /\ Cross(u, v) = S(-Cross(v, u)[1], Cross(v, u)[2]) /\ Cross(u, u) = <<0, 1>>
               /\ SAdd(SMul(Dot(u, v), Dot(u, v)), SMul(Cross(u, v), Cross(u, v))) = SMul(SqNorm(u), SqNorm(v))
Group       == /\ RRot(a, b) = RRot(b, a) /\ RRot(a, Identity) = a /\ RRot(a, RNeg(a)) = Identity
               /\ RSub(RRot(a, b), b) = a /\ RRot(a, b)[1] * RRot(a, b)[1] + RRot(a, b)[2] * RRot(a, b)[2] = RRot(a, b)[3] * RRot(a, b)[3]
Action      == /\ TRot(TRot(u, a), b) = TRot(u, RRot(a, b)) /\ TRot(u, Identity) = u
               /\ TRot(TAdd(u, v), a) = TAdd(TRot(u, a), TRot(v, a)) /\ SqNorm(TRot(u, a)) = SqNorm(u)
               /\ Dot(TRot(u, a), TRot(v, a)) = Dot(u, v) /\ Cross(TRot(u, a), TRot(v, a)) = Cross(u, v)
               /\ Polar(<<1, 1>>, a) = T(a[1], a[2], a[3]) /\ TRot(Polar(k, a), b) = Polar(k, RRot(a, b))
PoseAction  == PRot(PRot(Pose(u, a), b), RNeg(b)) = Pose(u, a)
===============================================================================
