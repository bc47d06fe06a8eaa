------------------------------ MODULE Gen_Expected ------------------------------
(* Histories of operations on four boxes.  The generator only knows which           *)
(* alternatives a box may hold (an armed operation may or may not throw), and asks   *)
(* for operations whose preconditions hold in either case.                          *)
EXTENDS Expected, GenIO
CONSTANTS Behaviours, Ops
VARIABLES n, cmds, K, poss

Ts == {"triv", "nothrow", "throwcopy", "throwmove", "void"}
Es == {"triv", "nothrow", "throwcopy", "throwmove"}
Makers == {"mk_def", "mk_val", "mk_conv", "mk_il", "mk_err", "mk_err_u", "mk_err_conv", "mk_err_il", "copy_new", "move_new",
           "conv_val", "conv_err"}
Changers == {"assign_copy", "assign_move", "assign_val", "assign_conv", "assign_err_c", "assign_err_m", "emplace", "emplace_il",
             "swap", "set_value", "set_error", "destroy"}
Readers == {"value", "deref", "arrow", "error", "value_or", "map", "map_void", "map_error", "map_error_void", "and_then", "or_else",
            "or_else_void", "cmp", "cmp_val", "cmp_err", "unexp_cmp"}
Armable == {"copy_new", "move_new", "conv_val", "conv_err", "assign_copy", "assign_move", "assign_val", "assign_conv", "emplace",
            "emplace_il", "swap", "mk_val", "mk_conv", "mk_il", "mk_err", "mk_err_u", "mk_err_conv", "mk_err_il"}
CanArm(c) == c.op \in Armable /\ ~(c.op \in {"emplace", "emplace_il"} /\ K.e = "throwmove")
Fine(c) ==
    LET p == poss[c.r + 1]  q == poss[c.s + 1] IN
    /\ NeedsBox(c) => 0 \notin p
    /\ NeedsValue(c) => p = {1}
    /\ NeedsError(c) => p = {2}
    /\ Binary(c) => 0 \notin q
    /\ Distinct(c) => c.r # c.s
    /\ c.op = "destroy" => 0 \notin p
Draw(z) ==
    LET op == Pick(CASE Pick(1..10) \in 1..2 -> Makers [] Pick(1..8) \in 1..4 -> Changers [] OTHER -> Readers)
        c0 == [op |-> op, r |-> Pick(0..3), s |-> Pick(0..3), q |-> Pick(0..3), id |-> Pick(1..6), a |-> Pick(1..3), b |-> Pick(1..3),
               alt |-> Pick(0..1), to |-> <<Pick(1..2), Pick(1..9)>>, arm |-> 0]
    IN IF CanArm(c0) /\ Pick(1..4) = 1 THEN [c0 EXCEPT !.arm = Pick({1, 1, 2, 3})] ELSE c0

\* the alternatives the boxes may have afterwards
Boxes(P) == {R \in [Regs -> (0..2) \X {0}] : \A r \in Regs : R[r][1] \in P[r]}
After(c) ==
    LET some == Boxes(poss)
        ok == [r \in Regs |-> UNION {{x[1] : x \in Outcome(K, R, c).post[r]} : R \in some}]
        th == [r \in Regs |-> UNION {{x[1] : x \in AfterThrow(K, R, c)[r]} : R \in some}]
    IN IF MayThrow(K, c) THEN [r \in Regs |-> ok[r] \cup th[r]] ELSE ok

Init == n = 0 /\ cmds = <<>> /\ K = [t |-> "void", e |-> "triv"] /\ poss = [r \in Regs |-> {0}]
Start == /\ cmds = <<>> /\ n < Behaviours
         /\ \E t \in {Pick(Ts)}, e \in {Pick(Es)} :
              /\ K' = [t |-> t, e |-> e]
              /\ cmds' = <<[op |-> "kind", t |-> t, e |-> e]>>
         /\ poss' = [r \in Regs |-> {0}] /\ n' = n
Step == /\ cmds # <<>> /\ Len(cmds) <= Ops
        /\ \E c \in {TLCEval(Draw(0))} :
             IF Fine(c) THEN cmds' = Append(cmds, c) /\ poss' = After(c) ELSE UNCHANGED <<cmds, poss>>
        /\ UNCHANGED <<n, K>>
Finish == /\ Len(cmds) = Ops + 1 /\ EmitCmds(cmds)
          /\ cmds' = <<>> /\ n' = n + 1 /\ UNCHANGED <<K, poss>>
\* one step at a time, also when it changes nothing
Next == Start \/ Step \/ Finish
Spec == Init /\ [][Next]_<<n, cmds, K, poss>>
===============================================================================
