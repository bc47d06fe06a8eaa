------------------------------- MODULE TraceIO -------------------------------
(***************************************************************************)
(* Reading a recorded run of the real code (one JSON event per line) and    *)
(* deciding whether the specification allows it.                            *)
(*                                                                          *)
(* An event is  [k |-> case, ev |-> "reset"]      a new case begins         *)
(*              [k, ev |-> "cmd", cmd, obs]       the code executed cmd and *)
(*                                                obs was observed          *)
(*              [k, ev |-> "crash", sig]          the code crashed or hung  *)
(*                                                                          *)
(* A judge module supplies the specification's initial state and an         *)
(* operator Judge(state, cmd, obs) that returns                             *)
(*    [st   |-> the specification's next state,                             *)
(*     bad  |-> set of <<key, what was expected>>: the observation is not   *)
(*              one the specification allows; the rest of the case is not   *)
(*              judged,                                                     *)
(*     soft |-> the same, but the case goes on]                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES l,      \* next event
          st,     \* the specification's state
          skip    \* the rest of this case is not judged

Trace == ndJsonDeserialize(IOEnv.TRACE)

Report(e, key, info) ==
    PrintT("BAD|" \o ToString(e.k) \o "|" \o ToString(l) \o "|" \o key \o "|" \o ToString(info))

OK(s)        == [st |-> s, bad |-> {}, soft |-> {}]
Bad(s, B)    == [st |-> s, bad |-> B, soft |-> {}]
\* reject with `key` unless `cond`
Need(cond, key, info) == IF cond THEN {} ELSE {<<key, info>>}

TraceInit(s0) == l = 1 /\ st = s0 /\ skip = FALSE

TraceNext(s0, Judge(_, _, _)) ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l] IN
       CASE e.ev = "reset" -> st' = s0 /\ skip' = FALSE
         [] e.ev = "crash" -> /\ Report(e, "crash", e.sig)
                              /\ st' = st /\ skip' = TRUE
         [] skip           -> UNCHANGED <<st, skip>>
         [] OTHER          -> LET j == Judge(st, e.cmd, e.obs) IN
                              /\ \A b \in j.bad \cup j.soft : Report(e, b[1], b[2])
                              /\ st' = j.st
                              /\ skip' = (j.bad # {})

TraceConsumed == TLCGet("stats").diameter = Len(Trace) + 1

\* |a - b| <= tol, and both are proper numbers (1999999999 stands for "not finite")
NaN == 1999999999
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, tol) == a # NaN /\ b # NaN /\ Abs(a - b) <= tol
NearSeq(p, q, tol) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : Near(p[i], q[i], tol)
===============================================================================
