----------------------------- MODULE Trace_Expected -----------------------------
(* A recorded history of operations on four result boxes.  The state is the kind   *)
(* of the elements and the boxes; where the specification leaves a moved-from       *)
(* element's contents open, the observed ones are taken over.                       *)
EXTENDS Expected, TraceIO
S0 == [K |-> [t |-> "none", e |-> "none"], R |-> [r \in Regs |-> None]]
Lives(K, R, live) ==
    /\ live[1] = IF K.t \in {"triv", "void"} THEN -1 ELSE Count(R, 1)
    /\ live[2] = IF K.e = "triv" THEN -1 ELSE Count(R, 2)
Fits(post, regs) == \A r \in Regs : regs[r] \in post[r]
\* boxes that may have other contents, but not another alternative
FitsAlt(post, regs) == \A r \in Regs : \E x \in post[r] : regs[r][1] = x[1]

Judge(s, c, o) ==
    IF c.op = "kind" THEN OK([K |-> [t |-> c.t, e |-> c.e], R |-> [r \in Regs |-> None]])
    ELSE IF c.op = "end" THEN Bad(s, Need(Lives(s.K, [r \in Regs |-> None], o.live), "leak", o.live) \cup
                                     Need(o.errs = 0, "lifetime", o.errs))
    ELSE IF o.threw = "terminate" THEN
        IF MayThrow(s.K, c) /\ Terminating(c) THEN Bad(s, {<<"throwing-element-terminates", c>>})
        ELSE Bad(s, {<<"terminate", c>>})
    ELSE
    LET x == Outcome(s.K, s.R, c)
        thrown == o.threw = "elem"
        post == IF thrown THEN AfterThrow(s.K, s.R, c) ELSE x.post
        s2 == [s EXCEPT !.R = [r \in Regs |-> o.regs[r]]]
    IN Bad(s2,
        Need(o.na = NotAvailable(s.K, c), "availability", c) \cup
        Need(thrown => MayThrow(s.K, c) /\ ~NotAvailable(s.K, c), "unexpected-throw", c) \cup
        Need(~thrown => (o.threw = "bad") = x.bad, "access-check", <<s.R, c>>) \cup
        Need(~thrown => o.tid = x.tid, "access-error", <<s.R, c, x.tid>>) \cup
        Need(FitsAlt(post, o.regs), "alternative", <<s.R, c, post>>) \cup
        Need(FitsAlt(post, o.regs) => Fits(post, o.regs), "contents", <<s.R, c, post>>) \cup
        Need(~thrown => o.ret = x.ret, "returned", <<s.R, c, x.ret>>) \cup
        Need(~thrown => o.calls = x.calls /\ o.arg = x.arg, "callback", <<s.R, c, x.calls, x.arg>>) \cup
        Need(Lives(s.K, o.regs, o.live), "live-elements", <<s.R, c, o.regs>>) \cup
        Need(o.errs = 0, "lifetime", <<s.R, c>>))
TraceSpec == TraceInit(S0) /\ [][TraceNext(S0, Judge)]_<<l, st, skip>>
===============================================================================
