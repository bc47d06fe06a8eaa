------------------------------ MODULE Gen_Geometry ------------------------------
(* Expressions over plain numbers and optimization variables: any offered operation  *)
(* on any objects, as long as the exact values stay small; then variables get new      *)
(* values.                                                                          *)
EXTENDS Geometry, GenIO
CONSTANTS Behaviours, Length, Sets, Bound
VARIABLES n, prog, acc, out
Fits(c, o) == CASE c.op = "eq" -> TRUE
                [] OTHER -> Mag(o.e) <= 90 /\ \A i \in 1..Len(o.v) : Mag(o.v[i]) <= Bound
Triples == <<<<3, 4, 5>>, <<5, 12, 13>>, <<8, 15, 17>>, <<1, 0, 1>>, <<1, 0, 1>>, <<0, 1, 1>>, <<7, 24, 25>>>>
Dir(z) == LET t == PickFrom(Triples)  f == Pick(BOOLEAN)
          IN <<(IF f THEN t[1] ELSE t[2]) * Pick({-1, 1}), (IF f THEN t[2] ELSE t[1]) * Pick({-1, 1}), t[3]>>
\* translations along one of them often, so that their lengths are whole numbers
Along(z) == LET d == TLCEval(Dir(0))  k == Pick(1..6) IN <<k * d[1], k * d[2]>>
NumsOf(op) ==
    CASE op = "s" -> [n |-> <<Pick({0, 1, -1, Pick(-9..9), Pick(-99..99)})>>, d |-> Pick({1, 1, 2, 3, 5})]
      [] op = "t" -> [n |-> IF Pick(1..3) = 1 THEN TLCEval(Along(0)) ELSE TLCEval(<<Pick({0, Pick(-9..9), Pick(-99..99)}), Pick({0, Pick(-9..9), Pick(-99..99)})>>), d |-> Pick({1, 1, 2, 4, 5})]
      [] op = "rcs" -> LET d == TLCEval(Dir(0)) IN [n |-> <<d[1], d[2]>>, d |-> d[3]]
      [] op = "rang" -> [ang |-> TLCEval([i \in 1..Pick({1, 1, 2, 3}) |-> LET d == TLCEval(Dir(0)) IN TLCEval(<<d[1], d[2], Pick({0, 0, -1, 1, 7, -12}), d[3]>>)])]
Base(op, k) == [op |-> op, k |-> k, a |-> -1, b |-> -1, c |-> -1]
\* the unit of lengths: one that is in use, or another
UnitFor(op) == IF op \in {"rcs", "rang"} THEN 0
               ELSE IF prog # <<>> /\ Pick(1..2) = 1 THEN acc[Pick(1..Len(acc))].e ELSE PickFrom(<<0, 0, 0, 0, -34, -20, -7, 12, 30>>)
NewLeaf(z) == LET op == PickFrom(<<"s", "t", "t", "rcs", "rang">>) IN
    CHOOSE x \in {Base(op, k) @@ m @@ [e |-> e] : k \in {Pick({"d", "v"})}, m \in {NumsOf(op)}, e \in {UnitFor(op)}} : TRUE
Ops1 == {"neg", "x", "y", "get0", "get1", "sqnorm", "norm", "angle", "same", "conv", "cos", "sin", "radians", "degrees", "again", "tr", "ro"}
Ops2 == {"add", "sub", "dot", "cross", "dist", "mul", "div", "muli", "divi", "rot", "pose", "polar", "xy", "xyv", "eq"}
Old(z) == Pick(0..(Len(prog) - 1))
\* what is asked of a rotation, a translation, a pose as soon as it is there
AskOf(x) == CASE x.ty = "R" -> {"radians", "degrees", "cos", "sin", "neg", "conv"}
              [] x.ty = "T" -> {"neg", "x", "y", "get0", "get1", "sqnorm", "norm", "angle", "conv"}
              [] x.ty = "P" -> {"tr", "ro", "x", "y", "same", "conv"}
              [] OTHER -> Ops1
\* and what something older is combined with it by
WithOf(x) == CASE x.ty = "R" -> {"rot"} [] x.ty = "T" -> {"add", "sub", "dot", "cross", "dist"} [] OTHER -> Ops2
Usable(c) == /\ (IsLeaf(c) \/ c.op \in {"t0", "r0", "p0"} \/ (acc[c.a + 1].ty # "O" /\ (c.b >= 0 => acc[c.b + 1].ty # "O")
                                                               /\ (c.c >= 0 => acc[c.c + 1].ty # "O")))
             /\ Offered(acc, c) /\ Defined(acc, c)
\* any objects an operation is offered on: a few attempts
Of(ty) == LET ofty == {i \in 1..Len(acc) : acc[i].ty = ty} IN IF ofty = {} THEN Old(0) ELSE Pick(ofty) - 1
With(op) == CASE op \in {"tr", "ro"} -> [Base(op, "") EXCEPT !.a = Of("P")]
              [] op \in Ops1 -> [Base(op, "") EXCEPT !.a = Old(0)]
              [] op = "pose3" -> [Base(op, "") EXCEPT !.a = Of("S"), !.b = Of("S"), !.c = Of("R")]
              [] op \in {"mul", "div", "muli", "divi"} -> [Base(op, "") EXCEPT !.a = Of("T"), !.b = Of("S")]
              [] op = "pose" -> [Base(op, "") EXCEPT !.a = Of("T"), !.b = Of("R")]
              [] op = "polar" -> [Base(op, "") EXCEPT !.a = Of("S"), !.b = Of("R")]
              [] op \in {"add", "sub"} -> IF Pick(1..2) = 1 THEN [Base(op, "") EXCEPT !.a = Of("R"), !.b = Of("R")]
                                         ELSE [Base(op, "") EXCEPT !.a = Of("T"), !.b = Of("T")]
              [] op = "rot" /\ Pick(1..4) = 1 -> [Base(op, "") EXCEPT !.a = Of("P"), !.b = Of("R")]
              [] OTHER -> [Base(op, "") EXCEPT !.a = Old(0), !.b = Old(0)]
Attempts == 20
OneOf(tried) == LET good == {c \in tried : Usable(c)} IN Pick(IF good = {} THEN tried ELSE good)
Among(op) == CHOOSE c \in {OneOf(tried) : tried \in {TLCEval({With(op) : k \in 1..Attempts})}} : TRUE
Draw(z) ==
    LET kind == Pick(1..24) IN
    CASE prog = <<>> \/ kind <= 5 -> NewLeaf(0)
      [] kind \in 17..20 -> LET like == {i \in 1..Len(acc) : acc[i].ty = "T"} IN
            [Base(Pick(WithOf(acc[Len(acc)])), "") EXCEPT !.a = IF like # {} /\ acc[Len(acc)].ty \in {"T", "R"} /\ Pick(1..4) > 1 THEN Pick(like) - 1 ELSE Old(0), !.b = Len(prog) - 1]
      [] kind > 20 -> [Base(Pick(AskOf(acc[Len(acc)])), "") EXCEPT !.a = Len(prog) - 1]
      [] kind = 6 /\ Pick(1..2) = 1 -> Base(Pick({"t0", "r0", "p0"}), Pick({"d", "v"}))
      [] kind \in 6..8 -> [Base(Pick(Ops1), "") EXCEPT !.a = Old(0)]
      [] OTHER -> CHOOSE c \in {Among(op) : op \in {Pick(Ops1 \cup Ops2 \cup {"pose3"})}} : TRUE
Grow == /\ Len(prog) < Length
        /\ \E c \in {TLCEval(Draw(0))} :
             IF Usable(c) /\ Fits(c, Eval(acc, c))
             THEN LET x == Eval(acc, c) IN
                  /\ prog' = Append(prog, c) /\ acc' = Append(acc, x)
                  /\ out' = Append(out, [dens |-> <<DensOf(c, x)>>, exps |-> <<ExpsOf(c, x)>>] @@ c)
             ELSE UNCHANGED <<prog, acc, out>>
        /\ n' = n
VLeaves == {i \in 1..Len(prog) : IsLeaf(prog[i]) /\ prog[i].k = "v"}
AllDefined(p, A) == \A i \in 1..Len(p) : Defined(A, p[i]) /\ Fits(p[i], A[i])
\* divisors must stay nonzero while evaluating: checked step by step
RunSafe(p) == FoldLeft(LAMBDA s, c : IF s.ok /\ Defined(s.acc, c) /\ Fits(c, Eval(s.acc, c))
                                     THEN [ok |-> TRUE, acc |-> Append(s.acc, Eval(s.acc, c))] ELSE [ok |-> FALSE, acc |-> s.acc],
                       [ok |-> TRUE, acc |-> <<>>], p)
Set == /\ Len(prog) = Length /\ Len(out) < Length + Sets
       /\ IF VLeaves = {} THEN out' = Append(out, [op |-> "skip"]) /\ UNCHANGED <<prog, acc>>
          ELSE \E i \in {TLCEval(Pick(VLeaves))} : \E v \in {TLCEval(NumsOf(prog[i].op) @@ [e |-> prog[i].e])} :
               LET p == [prog EXCEPT ![i] = Base(prog[i].op, "v") @@ v]
                   r == RunSafe(p)
               IN IF r.ok THEN /\ prog' = p /\ acc' = r.acc
                               /\ out' = Append(out, [op |-> "set", r |-> i - 1, to |-> Base(prog[i].op, "v") @@ v,
                                                      dens |-> [j \in 1..Len(p) |-> DensOf(p[j], r.acc[j])], exps |-> [j \in 1..Len(p) |-> ExpsOf(p[j], r.acc[j])]])
                  ELSE out' = Append(out, [op |-> "skip"]) /\ UNCHANGED <<prog, acc>>
       /\ n' = n
Finish == /\ Len(out) = Length + Sets /\ n < Behaviours
          /\ EmitCmds(SelectSeq(out, LAMBDA c : c.op # "skip"))
          /\ n' = n + 1 /\ prog' = <<>> /\ acc' = <<>> /\ out' = <<>>
Init == n = 0 /\ prog = <<>> /\ acc = <<>> /\ out = <<>>
Next == n < Behaviours /\ (Grow \/ Set \/ Finish)
Spec == Init /\ [][Next]_<<n, prog, acc, out>>
===============================================================================
