------------------------------ MODULE MC_Expected ------------------------------
(* Why boxes can be all-or-nothing: changing one box's alternative is a program    *)
(* of element operations (destroy, construct, assign), any of which may throw      *)
(* unless the element type promises not to.  For each operation and each pair of    *)
(* kinds, the strategy below is run with every choice of where it throws; it must    *)
(* end in an outcome that Expected allows, never touching a dead element and never   *)
(* leaving a box without one.                                                       *)
EXTENDS Expected
CONSTANT Careless   \* TRUE: destroy first, whatever the types promise (must fail)
VARIABLES K, R0, c, cells, tmp, prog, handler, phase, wrong

Kinds == {"triv", "nothrow", "throwcopy", "throwmove"}
Kind(alt) == IF alt = 1 THEN K.t ELSE K.e
NoThrowCopy(k) == k \in {"triv", "nothrow"}
NoThrowMove(k) == k # "throwmove"

\* element operations: <<name, to, alt, from>>; places 1, 2 are the boxes, 0 the temporary, -1 the operation's argument
Destroy(p)        == <<"destroy", p, 0, 0>>
Copy(p, alt, q)   == <<"copy", p, alt, q>>
Move(p, alt, q)   == <<"move", p, alt, q>>
AssignC(p, alt, q) == <<"acopy", p, alt, q>>
AssignM(p, alt, q) == <<"amove", p, alt, q>>
Take(how, p, alt, q) == IF how = "copy" THEN Copy(p, alt, q) ELSE Move(p, alt, q)
Safe(how, alt) == IF how = "copy" THEN NoThrowCopy(Kind(alt)) ELSE NoThrowMove(Kind(alt))

\* replace what box 1 holds by an element of alternative alt taken from q
Replace(how, alt, q) ==
    LET old == cells[1][1] IN
    CASE Safe(how, alt) \/ Careless -> [prog |-> <<Destroy(1), Take(how, 1, alt, q)>>, handler |-> <<>>]
      [] ~Careless /\ ~Safe(how, alt) /\ NoThrowMove(Kind(alt)) ->
            [prog |-> <<Take(how, 0, alt, q), Destroy(1), Move(1, alt, 0), Destroy(0)>>, handler |-> <<>>]
      [] OTHER -> [prog |-> <<Move(0, old, 1), Destroy(1), Take(how, 1, alt, q), Destroy(0)>>,
                   handler |-> <<Move(1, old, 0), Destroy(0)>>]
\* the last strategy needs an old element that moves without throwing
Supported(how, alt) == Safe(how, alt) \/ NoThrowMove(Kind(alt)) \/ NoThrowMove(Kind(cells[1][1]))

Program ==
    LET x == cells[1]  y == cells[2] IN
    CASE c.op = "assign_copy" -> IF x[1] = y[1] THEN [prog |-> <<AssignC(1, x[1], 2)>>, handler |-> <<>>] ELSE Replace("copy", y[1], 2)
      [] c.op = "assign_move" -> IF x[1] = y[1] THEN [prog |-> <<AssignM(1, x[1], 2)>>, handler |-> <<>>] ELSE Replace("move", y[1], 2)
      [] c.op = "assign_conv" -> IF x[1] = 1 THEN [prog |-> <<AssignC(1, 1, -1)>>, handler |-> <<>>] ELSE Replace("copy", 1, -1)
      [] c.op = "emplace" -> IF x[1] = 1 /\ ~Safe("copy", 1) /\ ~NoThrowMove(K.t)
                             THEN [prog |-> <<Copy(0, 1, -1), AssignM(1, 1, 0), Destroy(0)>>, handler |-> <<Destroy(0)>>]
                             ELSE Replace("copy", 1, -1)
      [] c.op = "swap" -> IF x[1] = y[1]
            THEN [prog |-> <<Move(0, x[1], 1), AssignM(1, x[1], 2), AssignM(2, x[1], 0), Destroy(0)>>, handler |-> <<Destroy(0)>>]
            ELSE LET p == IF NoThrowMove(Kind(x[1])) THEN 1 ELSE 2  q == 3 - p  a == cells[p][1]  b == cells[q][1] IN
                 [prog |-> <<Move(0, a, p), Destroy(p), Move(p, b, q), Destroy(q), Move(q, a, 0), Destroy(0)>>,
                  handler |-> <<Move(p, a, 0), Destroy(0)>>]
Available == CASE c.op = "assign_copy" -> cells[1][1] = cells[2][1] \/ Supported("copy", cells[2][1])
               [] c.op = "assign_move" -> cells[1][1] = cells[2][1] \/ Supported("move", cells[2][1])
               [] c.op \in {"assign_conv", "emplace"} -> cells[1][1] = 1 \/ Supported("copy", 1)
               [] c.op = "swap" -> NoThrowMove(K.t) \/ NoThrowMove(K.e)
Ready == K.e # "throwmove" \/ c.op \notin {"assign_conv"}

Content(p) == CASE p = 0 -> tmp [] p = -1 -> <<1, c.id>> [] OTHER -> cells[p]
Put(p, x)  == IF p = 0 THEN tmp' = x /\ UNCHANGED cells ELSE cells' = [cells EXCEPT ![p] = x] /\ UNCHANGED tmp
\* x is put at p and what was at q is moved from
PutMoved(p, x, q) ==
    LET gone == <<x[1], 0>> IN
    /\ cells' = [r \in 1..2 |-> CASE r = p -> x [] r = q /\ r # p -> gone [] OTHER -> cells[r]]
    /\ tmp' = CASE p = 0 -> x [] q = 0 -> gone [] OTHER -> tmp

CanThrow(o) == CASE o[1] = "destroy" -> FALSE
                 [] o[1] \in {"copy", "acopy"} -> ~NoThrowCopy(Kind(o[3]))
                 [] OTHER -> ~NoThrowMove(Kind(o[3]))

Init == /\ K \in [t : Kinds, e : Kinds]
        /\ cells \in [1..2 -> {<<1, 4>>, <<2, 5>>, <<1, 6>>, <<2, 7>>}]
        /\ R0 = cells
        /\ c \in [op : {"assign_copy", "assign_move", "assign_conv", "emplace", "swap"}, id : {9}, r : {0}, s : {1}, arm : {1}]
        /\ tmp = None /\ prog = <<>> /\ handler = <<>> /\ phase = "idle" /\ wrong = FALSE
Begin == /\ phase = "idle" /\ Available /\ Ready
         /\ prog' = Program.prog /\ handler' = Program.handler /\ phase' = "run"
         /\ UNCHANGED <<K, R0, c, cells, tmp, wrong>>
Step == /\ phase \in {"run", "handle"} /\ prog # <<>>
        /\ LET o == prog[1]  src == Content(o[4])  dst == Content(o[2]) IN
           /\ prog' = Tail(prog)
           /\ CASE o[1] = "destroy" -> Put(o[2], None) /\ wrong' = (wrong \/ dst = None)
                [] o[1] = "copy"  -> Put(o[2], <<o[3], src[2]>>) /\ wrong' = (wrong \/ dst # None \/ src[1] # o[3])
                [] o[1] = "acopy" -> Put(o[2], <<o[3], src[2]>>) /\ wrong' = (wrong \/ dst[1] # o[3] \/ src[1] # o[3])
                [] o[1] = "move"  -> PutMoved(o[2], <<o[3], src[2]>>, o[4]) /\ wrong' = (wrong \/ dst # None \/ src[1] # o[3])
                [] o[1] = "amove" -> PutMoved(o[2], <<o[3], src[2]>>, o[4]) /\ wrong' = (wrong \/ dst[1] # o[3] \/ src[1] # o[3])
        /\ UNCHANGED <<K, R0, c, handler, phase>>
Throw == /\ phase \in {"run", "handle"} /\ prog # <<>> /\ CanThrow(prog[1])
         /\ IF phase = "handle" THEN wrong' = TRUE ELSE wrong' = wrong
         \* a throw before the temporary exists leaves nothing to clean up
         /\ prog' = IF tmp = None THEN <<>> ELSE handler
         /\ phase' = "handle"
         /\ UNCHANGED <<K, R0, c, cells, tmp, handler>>
Next == Begin \/ Step \/ Throw
Spec == Init /\ [][Next]_<<K, R0, c, cells, tmp, prog, handler, phase, wrong>>

Quiet == phase \in {"run", "handle"} /\ prog = <<>>
Boxes4(two) == [r \in Regs |-> IF r <= 2 THEN two[r] ELSE None]
NothingDead == ~wrong
NoTemporary == Quiet => tmp = None
Allowed == Quiet =>
    LET q == [op |-> c.op, r |-> 0, s |-> 1, q |-> 0, id |-> c.id, to |-> <<1, 0>>, arm |-> 1]
        A == IF phase = "run" THEN Outcome(K, Boxes4(R0), q).post ELSE AfterThrow(K, Boxes4(R0), q)
        \* a copy or move of a trivial element leaves its contents
        \* (here moving always empties)
        Same0(x, S) == x \in S \/ (x[2] = 0 /\ \E y \in S : y[1] = x[1] /\ Kind(x[1]) = "triv")
    IN \A r \in 1..2 : Same0(cells[r], A[r])
===============================================================================
