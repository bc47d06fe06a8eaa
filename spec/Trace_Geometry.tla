---------------------------- MODULE Trace_Geometry ----------------------------
(* A recorded evaluation of expressions over plain numbers and optimization         *)
(* variables.  The state is the program so far; a variable leaf may be given a new    *)
(* value, and then every expression made from it must follow.                        *)
EXTENDS Geometry, TraceIO
\* an observed number is its nearest integer and what is left, in millionths
NearInt(o, n) == o[1] = n /\ o[2] # NaN /\ Abs(o[2]) <= 20
Pow2(x) == x * x
\* o: a root, and whether it is negative or not; the root of q?
RootOk(o, v) == LET q == v[1] * v[1] + v[2] * v[2]  N == o[1][1] IN
    /\ N # NaN /\ N >= 0
    /\ o[2] = <<1, 0>>
    /\ IF Whole(v) > 0 THEN NearInt(o[1], Whole(v))
       ELSE /\ Pow2(IF N > 0 THEN N - 1 ELSE 0) <= q /\ q <= Pow2(N + 1)
            /\ q <= 40000 => LET M == 100 * N + o[1][2] \div 10000 IN Pow2(IF M > 0 THEN M - 1 ELSE 0) <= 10000 * q /\ 10000 * q <= Pow2(M + 2)
\* the direction of <<x, y>> as a unit vector: times its length if that is a whole number, else in thousandths
DirOk(o, x, y) ==
    IF x = 0 /\ y = 0 THEN TRUE
    ELSE IF Whole(<<x, y>>) > 0 THEN NearInt(o[1], x) /\ NearInt(o[2], y)
    ELSE LET hc == o[1][1]  hs == o[2][1] IN
         /\ hc # NaN /\ hs # NaN
         /\ Abs(hs * x - hc * y) <= Abs(x) + Abs(y)
         /\ hc * x + hs * y > 0
         /\ Abs(hc * hc + hs * hs - 1000000) <= 3000
RotEq(o, a, b) == LET cr == a[1] * b[2] - a[2] * b[1] IN
    CASE a = b -> o = << <<1, 0>> >>
      [] cr # 0 -> o = << <<0, 0>> >>
      [] OTHER -> TRUE      \* half a turn apart: documented, and C04's known finding
SeenOk(acc, c, x, o) ==
    CASE c.op = "norm" \/ c.op = "dist" -> Len(o) = 2 /\ RootOk(o, x.v)
      [] c.op = "angle" -> Len(o) = 2 /\ DirOk(o, x.v[1], x.v[2])
      [] c.op \in {"radians", "degrees"} -> Len(o) = 3 /\ NearInt(o[1], x.v[1]) /\ NearInt(o[2], x.v[2])
                                            \* radians and degrees are the same number of turns
                                            /\ o[3] = <<0, 0>>
      [] c.op = "eq" ->
            LET a == x.v[1]  b == x.v[2]  ty == acc[c.a + 1].ty IN
            CASE ty = "T" -> o = (IF a = b THEN << <<1, 0>> >> ELSE << <<0, 0>> >>)
              [] ty = "R" -> RotEq(o, a, b)
              [] ty = "P" -> IF PT(a) # PT(b) THEN o = << <<0, 0>> >> ELSE RotEq(o, PR(a), PR(b))
ObjOk(acc, c, x, o) == IF x.ty = "O" THEN SeenOk(acc, c, x, o)
                       ELSE Len(o) = Len(Nums(x)) /\ \A i \in 1..Len(o) : NearInt(o[i], Nums(x)[i])
Judge(prog, c, o) ==
    IF c.op = "set" THEN
        LET p == [prog EXCEPT ![c.r + 1] = c.to @@ [k |-> "v", op |-> prog[c.r + 1].op, a |-> -1, b |-> -1, c |-> -1]]
            acc == Run(p)
        IN Bad(p, UNION {Need(c.dens[i] = DensOf(p[i], acc[i]) /\ c.exps[i] = ExpsOf(p[i], acc[i]), "harness", <<i, p[i]>>) \cup
                         Need(ObjOk(acc, p[i], acc[i], o[i]), "after-set-" \o p[i].op, <<p[i], acc[i]>>) : i \in 1..Len(p)})
    ELSE LET p == Append(prog, c)
             acc == Run(p)
             n == Len(p)
         IN Bad(p, Need(Offered(acc, c) /\ c.dens = <<DensOf(c, acc[n])>> /\ c.exps = <<ExpsOf(c, acc[n])>>, "harness", <<c, acc[n]>>) \cup
                   Need(ObjOk(acc, c, acc[n], o[1]), c.op, <<c, acc[n]>>))
TraceSpec == TraceInit(<<>>) /\ [][TraceNext(<<>>, Judge)]_<<l, st, skip>>
===============================================================================
