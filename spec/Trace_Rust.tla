------------------------------- MODULE Trace_Rust -------------------------------
(* May the recorded run, made through the Rust interface, be a run of World? (C18) *)
EXTENDS Trace_World, RustApi

\* what a generation whose last iterate is t hands out
Solution(b, t) == [dt |-> DtOf(b.counts, t.dt), x |-> t.x, y |-> t.y, c |-> t.c, s |-> t.s, vx |-> t.vx, vy |-> t.vy, w |-> t.w,
                   fx |-> t.fx, fy |-> t.fy]
RFields == {"t", "x", "y", "vx", "vy", "w", "fx", "fy"}
PointsTo(hc, hs, c, s) == Abs(hs * c - hc * s) <= 3 * (Abs(c) + Abs(s)) /\ hc * c + hs * s > 0
JudgeTraj(key, b, t, o) ==
    LET sol == Solution(b, t)  N == Len(sol.x) IN
    IF Len(o) # N THEN {<<key \o "-samples", N>>} ELSE
    UNION {Need(\A k \in 1..N : o[k][f] = SampleAt(sol, k)[f], key \o "-" \o f, [k \in 1..N |-> SampleAt(sol, k)[f]]) : f \in RFields} \cup
    Need(\A k \in 1..N : PointsTo(o[k].hc, o[k].hs, sol.c[k], sol.s[k]), key \o "-heading", <<sol.c, sol.s>>)
JudgeRIter(w, g, c, o) ==
    LET n == Len(g.b.cbs) IN
    Need(o.assigned, "unassignable", 0) \cup
    In("stop", Need(o.stop = g.canc, "stop", g.canc)) \cup
    In("deliver", IF n = 0 THEN Need(o.del = <<>>, "delivery-without-callback", 0)
    ELSE IF o.del = <<>> THEN Need(~MustDeliver(g, w.now), "missing-delivery", [now |-> w.now, first |-> g.first, last |-> g.last])
    ELSE Need(MayDeliver(g, w.now), "delivery-too-soon", [now |-> w.now, last |-> g.last]) \cup
         Need(Len(o.del) = n /\ \A k \in 1..n : o.del[k].cb = g.b.cbs[k], "callback-order", g.b.cbs) \cup
         Need(\A k \in 1..Len(o.del) : o.del[k].h = g.handle, "callback-handle", g.handle) \cup
         UNION {JudgeTraj("callback", g.b, c.traj, o.del[k].traj) : k \in 1..Len(o.del)})
JudgeRFinish(g, c, o) ==
    In("result",
    Need(o.assigned, "unassignable", 0) \cup
    IF c.code \in SuccessCodes
    THEN Need(o.res = "ok", "not-a-solution", c.code) \cup (IF o.res = "ok" /\ "traj" \in DOMAIN c THEN JudgeTraj("result", g.b, c.traj, o.traj) ELSE {})
    ELSE Need(o.res = "err", "not-a-failure", c.code) \cup Need(o.res = "err" => c.code \in Range(o.msgs), "failure-text", c.code))

RJudge(w, c, o) ==
    IF c.op \in {"rs", "drop"} THEN IF o.ok THEN OK(RustStep(w, c, FALSE)) ELSE Bad(w, {<<"exception", o>>})
    ELSE IF ~o.ok THEN Bad(w, {<<"exception", o>>})
    ELSE IF c.op = "iter" THEN [st |-> [w EXCEPT !.g[c.g] = GenIter(@, 0, w.now, Len(o.del) > 0)], bad |-> JudgeRIter(w, w.g[c.g], c, o), soft |-> {}]
    ELSE IF c.op = "finish" THEN Bad(Step(w, c, FALSE), JudgeRFinish(w.g[c.g], c, o))
    ELSE Judge(w, c, o)
\* the shapes of the known findings of C04 and C08 are not this property's business
RustJudge(w, c, o) == LET j == RJudge(w, c, o) IN [j EXCEPT !.soft = {}]

RustTraceSpec == TraceInit(World0) /\ [][TraceNext(World0, RustJudge)]_<<l, st, skip>>
===============================================================================
