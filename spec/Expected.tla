-------------------------------- MODULE Expected --------------------------------
(* The result type of the library: a box that holds a value or an error (or, for  *)
(* a register that does not exist, nothing).  A box is <<alt, id>> with alt 0      *)
(* (no box), 1 (value), 2 (error); id tells the contents apart.  Operation c on    *)
(* boxes R of kinds K = [t, e] either succeeds, and then Outcome says what the      *)
(* boxes are, what is returned, how often the callback ran and with what; or an     *)
(* element's own operation throws, and then AfterThrow says what the boxes are.    *)
(*                                                                                 *)
(* A moved-from element keeps its contents or is emptied (id 0).                   *)
EXTENDS Integers, Sequences, FiniteSets
Regs == 1..4
None == <<0, 0>>
Alts == {"no box", "value", "error"}

Void(K)     == K.t = "void"
Val(K, id)  == IF Void(K) THEN <<1, 0>> ELSE <<1, id>>
DefaultId   == 7777
Cmp(a, b)   == a = b

\* what a box may be after its contents were moved from
Moved(K, x) == CASE x[1] = 1 /\ K.t \notin {"triv", "void"} -> {x, <<1, 0>>}
                 [] x[1] = 2 /\ K.e # "triv"                -> {x, <<2, 0>>}
                 [] OTHER                                   -> {x}

\* an operation the element types do not support
NotAvailable(K, c) ==
    \/ Void(K) /\ c.op \in {"mk_val", "mk_conv", "mk_il", "conv_val", "conv_err", "assign_val", "assign_conv", "emplace",
                            "emplace_il", "swap", "value", "deref", "arrow", "set_value", "value_or", "cmp_val"}
    \/ c.op \in {"assign_val", "assign_conv"} /\ K.e = "throwmove"
    \/ c.op = "swap" /\ K.t = "throwmove" /\ K.e = "throwmove"
    \/ c.op = "assign_err_c" /\ K.e \in {"throwcopy", "throwmove"}
    \/ c.op = "assign_err_m" /\ K.e = "throwmove"

\* operations that need a box, a value, an error in their first register
NeedsBox(c) == c.op \in {"assign_copy", "assign_move", "assign_val", "assign_conv", "assign_err_c", "assign_err_m", "emplace",
                         "emplace_il", "swap", "value", "value_or", "map", "map_void", "map_error", "map_error_void", "and_then",
                         "or_else", "or_else_void", "cmp", "cmp_val", "cmp_err"} \/ (c.op = "set_value" /\ c.q # 0)
NeedsValue(c) == c.op \in {"deref", "arrow"} \/ (c.op = "set_value" /\ c.q = 0)
NeedsError(c) == c.op \in {"error", "set_error"}
\* operations with a second register, which must hold a box
Binary(c)   == c.op \in {"copy_new", "move_new", "assign_copy", "assign_move", "swap", "cmp"}
\* ... and must not be the first one, as that is destroyed before
Distinct(c) == c.op \in {"copy_new", "move_new"}

Constructs(c) == c.op \in {"mk_def", "mk_val", "mk_conv", "mk_il", "mk_err", "mk_err_u", "mk_err_conv", "mk_err_il",
                           "copy_new", "move_new", "conv_val", "conv_err"}

Same(R)       == [r \in Regs |-> {R[r]}]
With(R, i, x) == [Same(R) EXCEPT ![i] = {x}]
Done(post)    == [post |-> post, ret |-> <<0, 0>>, calls |-> 0, arg |-> 0, bad |-> FALSE, tid |-> 0]
Gives(post, ret) == [Done(post) EXCEPT !.ret = ret]
Called(post, ret, arg) == [Done(post) EXCEPT !.ret = ret, !.calls = 1, !.arg = arg]
BadAccess(post, tid) == [Done(post) EXCEPT !.bad = TRUE, !.tid = tid]

(* c.r and c.s are 0-based in commands.  *)
Outcome(K, R, c) ==
    LET i == c.r + 1
        j == c.s + 1
        x == R[i]
        \* the box after its contents were handed out with the wanted value category
        Taken == IF c.q = 2 THEN [Same(R) EXCEPT ![i] = Moved(K, x)] ELSE Same(R)
        to == IF c.to[1] = 1 THEN Val(K, c.to[2]) ELSE <<2, c.to[2]>>
        held == x[1] = 1
    IN
    CASE NotAvailable(K, c) -> Done(Same(R))
      [] c.op = "mk_def" -> Done(With(R, i, Val(K, DefaultId)))
      [] c.op \in {"mk_val", "mk_conv", "conv_val"} -> Done(With(R, i, <<1, c.id>>))
      [] c.op = "mk_il" -> Done(With(R, i, <<1, c.a + c.b>>))
      [] c.op \in {"mk_err", "mk_err_u", "mk_err_conv", "conv_err"} -> Done(With(R, i, <<2, c.id>>))
      [] c.op = "mk_err_il" -> Done(With(R, i, <<2, c.a + c.b>>))
      [] c.op \in {"copy_new", "assign_copy"} -> Done(With(R, i, R[j]))
      [] c.op \in {"move_new", "assign_move"} ->
            Done(IF i = j THEN [Same(R) EXCEPT ![i] = Moved(K, x)]
                 ELSE [Same(R) EXCEPT ![i] = {R[j]}, ![j] = Moved(K, R[j])])
      [] c.op = "destroy" -> Done(With(R, i, None))
      [] c.op \in {"assign_val", "assign_conv", "emplace"} -> Done(With(R, i, <<1, c.id>>))
      [] c.op = "emplace_il" -> Done(With(R, i, <<1, c.a + c.b>>))
      [] c.op \in {"assign_err_c", "assign_err_m"} -> Done(With(R, i, <<2, c.id>>))
      [] c.op = "swap" -> Done([Same(R) EXCEPT ![i] = {R[j]}, ![j] = {x}])
      [] c.op = "value" -> IF held THEN Gives(Taken, x) ELSE BadAccess(Taken, x[2])
      [] c.op = "deref" -> Gives(Taken, x)
      [] c.op = "error" -> Gives(Taken, x)
      [] c.op = "arrow" -> Gives(Same(R), x)
      [] c.op = "set_value" -> IF held THEN Done(With(R, i, <<1, c.id>>)) ELSE BadAccess(Same(R), x[2])
      [] c.op = "set_error" -> Done(With(R, i, <<2, c.id>>))
      [] c.op = "value_or" -> Gives(IF c.q # 1 /\ held THEN [Same(R) EXCEPT ![i] = Moved(K, x)] ELSE Same(R),
                                    IF held THEN x ELSE <<1, c.id>>)
      [] c.op = "map" -> IF held THEN Called(Taken, <<1, x[2] + 100>>, x[2]) ELSE Gives(Taken, x)
      [] c.op = "map_void" -> IF held THEN Called(Taken, <<1, 0>>, x[2]) ELSE Gives(Taken, x)
      [] c.op = "map_error" -> IF held THEN Gives(Taken, x) ELSE Called(Taken, <<2, x[2] + 100>>, x[2])
      [] c.op = "map_error_void" -> IF held THEN Gives(Taken, x) ELSE Called(Taken, <<2, 0>>, x[2])
      [] c.op = "and_then" -> IF held THEN Called(Taken, to, x[2]) ELSE Gives(Taken, x)
      [] c.op = "or_else" -> IF held THEN Gives(Taken, x) ELSE Called(Taken, to, x[2])
      [] c.op = "or_else_void" -> IF held THEN Gives(Taken, x) ELSE Called(Taken, x, x[2])
      [] c.op = "cmp" -> Gives(Same(R), <<x = R[j], x # R[j]>>)
      [] c.op = "cmp_val" -> LET b == x = <<1, c.id>> IN Gives(Same(R), <<b, b, ~b, ~b>>)
      [] c.op = "cmp_err" -> LET b == x = <<2, c.id>> IN Gives(Same(R), <<b, b, ~b, ~b>>)
      [] c.op = "unexp_cmp" -> Gives(Same(R), <<c.a = c.b, c.a # c.b, c.a < c.b, c.a <= c.b, c.a > c.b, c.a >= c.b>>)
      [] OTHER -> Done(Same(R))

(* An element's operation threw: nothing has changed, except that what was to be   *)
(* moved from may be emptied, and that a box under construction does not exist.     *)
AfterThrow(K, R, c) ==
    LET i == c.r + 1
        j == c.s + 1
    IN CASE Constructs(c) -> IF c.op = "move_new" THEN [Same(R) EXCEPT ![i] = {None}, ![j] = Moved(K, R[j])]
                             ELSE [Same(R) EXCEPT ![i] = {None}]
         [] c.op = "assign_move" -> [Same(R) EXCEPT ![j] = Moved(K, R[j])]
         \* two elements of the same kind are swapped by their own operations
         [] c.op = "swap" -> LET X == IF R[i][1] = R[j][1] THEN Moved(K, R[i]) \cup Moved(K, R[j]) ELSE {} IN
                             [Same(R) EXCEPT ![i] = Moved(K, R[i]) \cup X, ![j] = Moved(K, R[j]) \cup X]
         [] OTHER -> Same(R)

\* operations during which an element's operation may throw, when asked to
MayThrow(K, c) == c.arm > 0 /\ (K.t \in {"throwcopy", "throwmove"} \/ K.e \in {"throwcopy", "throwmove"})
(* Copying and moving whole results is declared not to throw; with elements that   *)
(* throw the process ends instead (known finding).                                  *)
Terminating(c) == c.op \in {"copy_new", "move_new", "conv_val", "conv_err", "assign_copy", "assign_move"}

Count(R, alt) == Cardinality({r \in Regs : R[r][1] = alt})
===============================================================================
