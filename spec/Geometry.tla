-------------------------------- MODULE Geometry --------------------------------
(* Plane geometry, exactly: a scalar is <<n, d>>, a translation <<x, y, d>> (the    *)
(* point x/d, y/d), a rotation <<c, s, r>> with c^2 + s^2 = r^2 (cosine c/r, sine    *)
(* s/r), a pose <<x, y, d, c, s, r>>; denominators are positive and fractions are    *)
(* reduced, so that equal things are equal tuples.                                  *)
EXTENDS Integers, Sequences, SequencesExt
Mag(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Sgn(d) == IF d < 0 THEN -1 ELSE 1
S(n, d)    == LET g == Gcd(Mag(d), Mag(n)) * Sgn(d) IN <<n \div g, d \div g>>
T(x, y, d) == LET g == Gcd(Gcd(Mag(d), Mag(x)), Mag(y)) * Sgn(d) IN <<x \div g, y \div g, d \div g>>
R(c, s, r) == T(c, s, r)

Identity == <<1, 0, 1>>
Zero     == <<0, 0, 1>>

TAdd(a, b)  == T(a[1] * b[3] + b[1] * a[3], a[2] * b[3] + b[2] * a[3], a[3] * b[3])
TNeg(a)     == <<-a[1], -a[2], a[3]>>
TSub(a, b)  == TAdd(a, TNeg(b))
TMul(a, k)  == T(a[1] * k[1], a[2] * k[1], a[3] * k[2])
TDiv(a, k)  == T(a[1] * k[2], a[2] * k[2], a[3] * k[1])
TRot(a, r)  == T(a[1] * r[1] - a[2] * r[2], a[1] * r[2] + a[2] * r[1], a[3] * r[3])
Dot(a, b)   == S(a[1] * b[1] + a[2] * b[2], a[3] * b[3])
Cross(a, b) == S(a[1] * b[2] - a[2] * b[1], a[3] * b[3])
SqNorm(a)   == Dot(a, a)
RRot(a, b)  == R(a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1], a[3] * b[3])
RNeg(a)     == <<a[1], -a[2], a[3]>>
RSub(a, b)  == RRot(a, RNeg(b))
Polar(k, r) == T(k[1] * r[1], k[1] * r[2], k[2] * r[3])
Pose(t, r)  == t \o r
PT(p)       == SubSeq(p, 1, 3)
PR(p)       == SubSeq(p, 4, 6)
PRot(p, r)  == Pose(TRot(PT(p), r), RRot(PR(p), r))

(* ---------------------------------------------------------------------------- *)
(* Expressions: a program is a sequence of commands, command i naming earlier ones   *)
(* by their number from 0 (c.a, c.b, c.c).  An object is [ty, k, v, e]: its type (S,  *)
(* T, R, P, or O: only looked at), "v" when it depends on optimization variables,     *)
(* "d" when it is a plain number, its value (for O: its operands' values) and the     *)
(* unit its lengths are in, 2^e: plane geometry is the same in all units.             *)
ObjE(ty, k, v, e) == [ty |-> ty, k |-> k, v |-> v, e |-> e]
Obj(ty, k, v) == ObjE(ty, k, v, 0)
UnitOf(c) == IF "e" \in DOMAIN c THEN c.e ELSE 0
Mix(k, m) == IF k = "v" \/ m = "v" THEN "v" ELSE "d"

RECURSIVE SumOf(_)
\* the rotation by the sum of the angles of <<c, s, turns, r>>
SumOf(angs) == IF angs = <<>> THEN Identity
               ELSE LET a == angs[Len(angs)] IN RRot(SumOf(SubSeq(angs, 1, Len(angs) - 1)), R(a[1], a[2], a[4]))

Leaf(c) == CASE c.op = "s" -> S(c.n[1], c.d)
             [] c.op = "t" -> T(c.n[1], c.n[2], c.d)
             [] c.op = "rcs" -> R(c.n[1], c.n[2], c.d)
             [] c.op = "rang" -> SumOf(c.ang)
LeafType(c) == CASE c.op = "s" -> "S" [] c.op = "t" -> "T" [] OTHER -> "R"
IsLeaf(c) == c.op \in {"s", "t", "rcs", "rang"}

Eval(acc, c) ==
    LET a == acc[c.a + 1]  b == acc[c.b + 1] IN
    CASE IsLeaf(c)     -> ObjE(LeafType(c), c.k, Leaf(c), UnitOf(c))
      [] c.op = "t0"   -> Obj("T", c.k, Zero)
      [] c.op = "r0"   -> Obj("R", c.k, Identity)
      [] c.op = "p0"   -> Obj("P", c.k, Pose(Zero, Identity))
      [] c.op = "pose3" -> ObjE("P", a.k, Pose(T(a.v[1] * b.v[2], b.v[1] * a.v[2], a.v[2] * b.v[2]), acc[c.c + 1].v), a.e)
      \* one operand
      [] c.b < 0 /\ a.ty = "T" ->
            (CASE c.op = "neg"    -> ObjE("T", a.k, TNeg(a.v), a.e)
               [] c.op \in {"x", "get0"} -> ObjE("S", a.k, S(a.v[1], a.v[3]), a.e)
               [] c.op \in {"y", "get1"} -> ObjE("S", a.k, S(a.v[2], a.v[3]), a.e)
               [] c.op = "sqnorm" -> ObjE("S", a.k, SqNorm(a.v), 2 * a.e)
               [] c.op \in {"norm", "angle"} -> ObjE("O", a.k, a.v, IF c.op = "norm" THEN a.e ELSE 0)
               [] c.op = "same"   -> a
               [] c.op = "conv"   -> ObjE("T", "v", a.v, a.e))
      [] c.b < 0 /\ a.ty = "R" ->
            (CASE c.op = "neg"    -> Obj("R", a.k, RNeg(a.v))
               [] c.op = "cos"    -> Obj("S", a.k, S(a.v[1], a.v[3]))
               [] c.op = "sin"    -> Obj("S", a.k, S(a.v[2], a.v[3]))
               [] c.op \in {"radians", "degrees"} -> Obj("O", a.k, a.v)
               [] c.op \in {"same", "again"} -> a
               [] c.op = "conv"   -> Obj("R", "v", a.v))
      [] c.b < 0 /\ a.ty = "P" ->
            (CASE c.op = "tr"   -> ObjE("T", a.k, PT(a.v), a.e)
               [] c.op = "ro"   -> Obj("R", a.k, PR(a.v))
               [] c.op = "x"    -> ObjE("S", a.k, S(a.v[1], a.v[3]), a.e)
               [] c.op = "y"    -> ObjE("S", a.k, S(a.v[2], a.v[3]), a.e)
               [] c.op = "same" -> a
               [] c.op = "conv" -> ObjE("P", "v", a.v, a.e))
      \* two operands
      [] c.op = "eq" -> Obj("O", "v", <<a.v, b.v>>)
      [] a.ty = "T" /\ b.ty = "T" ->
            (CASE c.op = "add"   -> ObjE("T", Mix(a.k, b.k), TAdd(a.v, b.v), a.e)
               [] c.op = "sub"   -> ObjE("T", Mix(a.k, b.k), TSub(a.v, b.v), a.e)
               [] c.op = "dot"   -> ObjE("S", Mix(a.k, b.k), Dot(a.v, b.v), a.e + b.e)
               [] c.op = "cross" -> ObjE("S", Mix(a.k, b.k), Cross(a.v, b.v), a.e + b.e)
               [] c.op = "dist"  -> ObjE("O", Mix(a.k, b.k), TSub(a.v, b.v), a.e))
      [] a.ty = "T" /\ b.ty = "S" -> IF c.op \in {"mul", "muli"} THEN ObjE("T", Mix(a.k, b.k), TMul(a.v, b.v), a.e + b.e)
                                     ELSE ObjE("T", Mix(a.k, b.k), TDiv(a.v, b.v), a.e - b.e)
      [] a.ty = "T" /\ b.ty = "R" -> IF c.op = "pose" THEN ObjE("P", a.k, Pose(a.v, b.v), a.e) ELSE ObjE("T", Mix(a.k, b.k), TRot(a.v, b.v), a.e)
      [] a.ty = "S" /\ b.ty = "R" -> ObjE("T", Mix(a.k, b.k), Polar(a.v, b.v), a.e)
      [] a.ty = "S" /\ b.ty = "S" -> ObjE("T", IF c.op = "xyv" THEN "v" ELSE Mix(a.k, b.k),
                                         T(a.v[1] * b.v[2], b.v[1] * a.v[2], a.v[2] * b.v[2]), a.e)
      [] a.ty = "R" /\ b.ty = "R" -> Obj("R", Mix(a.k, b.k), IF c.op = "sub" THEN RSub(a.v, b.v) ELSE RRot(a.v, b.v))
      [] a.ty = "P" /\ b.ty = "R" -> ObjE("P", a.k, PRot(a.v, b.v), a.e)

(* Which expressions the interface offers: composition by + and -, poses and their    *)
(* rotation take operands of one kind, a plain distance only a plain angle.            *)
Offered(acc, c) ==
    IsLeaf(c) \/ c.op \in {"t0", "r0", "p0"} \/
    LET a == acc[c.a + 1] IN
    IF c.b < 0 THEN
        CASE a.ty = "T" -> c.op \in {"neg", "x", "y", "get0", "get1", "sqnorm", "norm", "angle", "same"} \cup (IF a.k = "d" THEN {"conv"} ELSE {})
          [] a.ty = "R" -> c.op \in {"neg", "cos", "sin", "radians", "degrees", "same", "again"} \cup (IF a.k = "d" THEN {"conv"} ELSE {})
          [] a.ty = "P" -> c.op \in {"tr", "ro", "x", "y", "same"} \cup (IF a.k = "d" THEN {"conv"} ELSE {})
          [] OTHER -> FALSE
    ELSE LET b == acc[c.b + 1]  same == a.k = b.k IN
        IF c.op = "pose3" THEN a.ty = "S" /\ b.ty = "S" /\ a.e = b.e /\ acc[c.c + 1].ty = "R" /\ same /\ acc[c.c + 1].k = a.k
        ELSE IF c.op = "eq" THEN a.ty = b.ty /\ a.ty \in {"T", "R", "P"} /\ Mix(a.k, b.k) = "v" /\ a.e = 0 /\ b.e = 0
        ELSE CASE a.ty = "T" /\ b.ty = "T" -> c.op \in {"dot", "cross"} \cup (IF a.e = b.e THEN {"add", "sub", "dist"} ELSE {})
          [] a.ty = "T" /\ b.ty = "S" -> c.op \in {"mul", "div"} \cup (IF b.k = "d" /\ b.v[2] = 1 /\ b.e = 0 THEN {"muli", "divi"} ELSE {})
          [] a.ty = "T" /\ b.ty = "R" -> c.op = "rot" \/ (c.op = "pose" /\ same)
          [] a.ty = "S" /\ b.ty = "R" -> c.op = "polar" /\ (a.k = "v" \/ b.k = "d")
          [] a.ty = "S" /\ b.ty = "S" -> c.op \in {"xy", "xyv"} /\ a.e = b.e
          [] a.ty = "R" /\ b.ty = "R" -> c.op = "rot" \/ (c.op \in {"add", "sub"} /\ same)
          [] a.ty = "P" /\ b.ty = "R" -> c.op = "rot" /\ same
          [] OTHER -> FALSE
\* division by zero has no value
Defined(acc, c) == (c.b >= 0 /\ c.op \in {"div", "divi"}) => acc[c.b + 1].v[1] # 0

Run(prog) == FoldLeft(LAMBDA acc, c : Append(acc, Eval(acc, c)), <<>>, prog)

\* what the value's numbers are multiplied by when they are observed (besides 2^-e)
Dens(o) == CASE o.ty = "S" -> <<o.v[2]>>
             [] o.ty = "T" -> <<o.v[3], o.v[3]>>
             [] o.ty = "R" -> <<o.v[3], o.v[3]>>
             [] o.ty = "P" -> <<o.v[3], o.v[3], o.v[6], o.v[6]>>
             [] OTHER -> <<>>
\* the root of n if it is a whole number, else 0
RECURSIVE RootIn(_, _, _)
RootIn(n, lo, hi) == IF lo > hi THEN 0 ELSE LET m == (lo + hi) \div 2 IN
    IF m * m = n THEN m ELSE IF m * m < n THEN RootIn(n, m + 1, hi) ELSE RootIn(n, lo, m - 1)
Whole(v) == IF Mag(v[1]) > 30000 \/ Mag(v[2]) > 30000 THEN 0 ELSE RootIn(v[1] * v[1] + v[2] * v[2], 1, 43000)
\* the exponents of the units of the observed numbers
Exps(o, n) == [i \in 1..n |-> IF i = 1 \/ (i = 2 /\ o.ty # "O") THEN -o.e ELSE 0]
\* what an object's observation is asked to be multiplied by
DensOf(c, x) == CASE c.op \in {"radians", "degrees"} -> <<x.v[3], x.v[3]>>
                  [] c.op \in {"norm", "dist"} -> <<x.v[3], 1>>
                  [] c.op = "angle" -> IF Whole(x.v) > 0 THEN <<Whole(x.v), Whole(x.v)>> ELSE <<1000, 1000>>
                  [] OTHER -> Dens(x)
ExpsOf(c, x) == Exps(x, Len(DensOf(c, x)))
Nums(o) == CASE o.ty = "S" -> <<o.v[1]>>
             [] o.ty \in {"T", "R"} -> <<o.v[1], o.v[2]>>
             [] o.ty = "P" -> <<o.v[1], o.v[2], o.v[4], o.v[5]>>
===============================================================================
