------------------------------ MODULE Trace_World ------------------------------
(***************************************************************************)
(* May the recorded run be a run of World?  Parts selects the kinds of       *)
(* observations that are judged.                                             *)
(***************************************************************************)
EXTENDS World, TraceIO
CONSTANT Parts

In(p, S) == IF p \in Parts THEN S ELSE {}

\* ------------------------------------------------------------ builder (C02)
\* what the driver's probing calls a constraint: its lane, or its target
Tag(c) == CASE c.t = "pp" -> c.f[2] \div 10 [] c.t = "obs" -> c.opts[1][2] \div 10
            [] c.t = "pose" -> c.x [] c.t = "trans" -> c.x + 1000
Tags(list) == {Tag(list[i]) : i \in 1..Len(list)}
JudgePath(b, o) ==
    Need(Len(o.wpts) = Len(b.wpts), "waypoints", Len(b.wpts)) \cup
    IF Len(o.wpts) # Len(b.wpts) THEN {} ELSE
    Need(\A i \in 1..Len(b.wpts) : Range(o.wpts[i].w) = Tags(b.wpts[i].w), "waypoint-constraints",
         [i \in 1..Len(b.wpts) |-> Tags(b.wpts[i].w)]) \cup
    Need(\A i \in 1..Len(b.wpts) : Range(o.wpts[i].s) = Tags(b.wpts[i].s), "segment-constraints",
         [i \in 1..Len(b.wpts) |-> Tags(b.wpts[i].s)])

Micro(v) == v * 1000000
JudgeDrive(b, o) ==
    Need(o.mass = Micro(b.drive.mass) /\ o.moi = Micro(b.drive.moi) /\ Len(o.mods) = Len(b.drive.mods) /\
         \A i \in 1..Len(b.drive.mods) : LET m == b.drive.mods[i] IN
             o.mods[i] = <<Micro(m.x), Micro(m.y), Micro(m.r), Micro(m.w), Micro(m.t)>>, "drivetrain", b.drive)

\* -------------------------------------------------------------- guess (C06)
\* positions in thousandths and headings in thousandths of a degree, with what rounding left of
\* them (xr, yr, hr) in billionths; squared norms less 1 in millions of millionths
JudgeGuess(b, o) ==
    IF ~Complete(b) THEN {} ELSE
    LET Z == Stretches(b.guess, b.counts)  T == Total(b.counts)  g0 == b.guess[1][Len(b.guess[1])] IN
    Need(Len(o.x) = T /\ Len(o.y) = T /\ Len(o.h) = T /\ Len(o.n2) = T, "guess-length", T) \cup
    IF ~(Len(o.x) = T /\ Len(o.y) = T /\ Len(o.h) = T /\ Len(o.n2) = T) THEN {} ELSE
    Need(\A n \in 1..T : Near(o.n2[n], 0, 1000), "guess-heading-norm", 1) \cup
    Need(IsAt(o.x[1], o.xr[1], 1000 * g0[1], 1, 20) /\ IsAt(o.y[1], o.yr[1], 1000 * g0[2], 1, 20), "guess-start", g0) \cup
    Need(HasDeg(g0) => SameTurn(o.h[1], o.hr[1], 1000 * Deg(g0), 1, 20), "guess-start-heading", g0) \cup
    Need(\A i \in 1..Len(Z) : OnStretch(o.x, o.xr, Z[i], 1, 1000, 20) /\ OnStretch(o.y, o.yr, Z[i], 2, 1000, 20), "guess-points", Z) \cup
    Need(\A i \in 1..Len(Z) : HeadingOnStretch(o.h, o.hr, Z[i], 20), "guess-headings", Z)

\* ------------------------------------------------------- solver start (C20)
\* o: the decision variables at solver entry, in millionths; o.gx .. the builder's guess
DivR(a, d) == (a + d \div 2) \div d
\* finite and small enough to reckon with
Tame(s) == \A n \in 1..Len(s) : Abs(s[n]) < 1500000000
\* thousandths of a degree -> millionths of a radian
ShortTurn(d) == LET e == d % 360000 IN IF e > 180000 THEN e - 360000 ELSE e
JudgeStartRoles(o) ==
    Need(o.x = o.gx /\ o.y = o.gy /\ NearSeq(o.c, o.gc, 2) /\ NearSeq(o.s, o.gs, 2), "start-is-guess", [x |-> o.gx, y |-> o.gy])
JudgeStart(b, o) ==
    LET T == Total(b.counts)  W == Len(b.counts) + 1
        \* finite difference quotient with step 5 W / T
        Slope(d) == LET e == d \div 5 IN (e \div W) * T + DivR((e % W) * T, W)
        Tol(v) == 2 * T + Abs(v) \div 100000   \* rounding of what is observed
        TolTurn(v) == 8 * T + Abs(v) \div 1000
    IN
    Need(o.finite, "not-finite", 0) \cup
    LET tame == \A f \in {"x", "y", "c", "s", "vx", "vy", "w", "ax", "ay", "al", "dt", "gx", "gy", "gh"} : Tame(o[f]) IN
    Need(tame, "out-of-range", 0) \cup IF ~tame THEN {} ELSE
    Need(o.x = o.gx /\ o.y = o.gy /\ NearSeq(o.c, o.gc, 2) /\ NearSeq(o.s, o.gs, 2) /\ Len(o.x) = T, "start-is-guess", [x |-> o.gx, y |-> o.gy]) \cup
    Need(Len(o.dt) = Len(b.counts) /\ \A k \in 1..Len(b.counts) : Near(o.dt[k] * b.counts[k], 5000000, b.counts[k] + 1), "start-dt", b.counts) \cup
    Need(\A f \in {"vx", "vy", "w", "ax", "ay", "al"} : Len(o[f]) = T /\ o[f][1] = 0, "start-zero", 0) \cup
    Need(\A n \in 2..T : /\ LET v == Slope(o.gx[n] - o.gx[n - 1]) IN Near(o.vx[n], v, Tol(v))
                         /\ LET v == Slope(o.gy[n] - o.gy[n - 1]) IN Near(o.vy[n], v, Tol(v)), "start-velocity", 0) \cup
    Need(\A n \in 2..T : /\ LET v == Slope(o.vx[n] - o.vx[n - 1]) IN Near(o.ax[n], v, Tol(v))
                         /\ LET v == Slope(o.vy[n] - o.vy[n - 1]) IN Near(o.ay[n], v, Tol(v)), "start-acceleration", 0) \cup
    Need(\A n \in 2..T : LET d == ShortTurn(o.gh[n] - o.gh[n - 1])
                             v == DivR(((d * 1745) \div 500) * T, W)      \* radians * 1e6 / 5 * T / W
                         IN Near(o.w[n], v, TolTurn(v))
                            \/ (Abs(d) >= 179990 /\ Near(-o.w[n], v, TolTurn(v))), "start-angular-velocity", 0) \cup
    Need(\A n \in 2..T : LET v == Slope(o.w[n] - o.w[n - 1]) IN Near(o.al[n], v, Tol(v)), "start-angular-acceleration", 0)

\* ------------------------------------------------- admitted trajectories (C03-C05, C08-C10)
\* a trajectory the code admits although the specification does not: is it one of
\* the shapes that are recorded as known findings?
PoseOpposite(b, t) ==
    /\ \A p \in Violated(b, t) : p[1].t = "pose" /\ LET s == StateAt(t, p[2]) IN
                                 s.x = p[1].x /\ s.y = p[1].y /\ Opposite(s, Dir(p[1].h))
    /\ Violated(b, t) # {}
Excuse(b, t) ==
    LET ph == Physical(b.drive, b.counts, t)  ad == Admits(b, t)  hd == Headings(b.counts, t) IN
    IF ph # 1 THEN "admitted"
    ELSE IF hd = 1 /\ PoseOpposite(b, t) THEN "pose-heading-opposite"
    ELSE IF ad = 1 /\ HeadingsUnit(b.counts, t) /\ HeadingsHalfTurn(b.counts, t) THEN "heading-link-half-turn"
    ELSE "admitted"
JudgeProbe(b, ts, o) ==
    UNION {LET e == Feasible(b, ts[i]) IN
           IF o.adm[i] = -1 THEN {<<"unassignable", i>>}
           ELSE IF e = 1 /\ o.adm[i] = 0 THEN {<<"rejected", [traj |-> i, off |-> o.worst[i]]>>}
           ELSE IF e = 0 /\ o.adm[i] = 1 THEN {<<Excuse(b, ts[i]), [traj |-> i, violated |-> Violated(b, ts[i]),
                     physical |-> Physical(b.drive, b.counts, ts[i]), headings |-> Headings(b.counts, ts[i])]>>}
           ELSE {} : i \in 1..Len(ts)}
Excused == {"pose-heading-opposite", "heading-link-half-turn"}

\* objective (C10), in thousandths
JudgeCost(b, ts, o) ==
    Need(\A i \in 1..Len(ts) : Near(o.cost[i], 1000 * Duration(b.counts, ts[i].dt, Len(b.counts)), 1), "cost",
         [i \in 1..Len(ts) |-> 1000 * Duration(b.counts, ts[i].dt, Len(b.counts))])

\* ---------------------------------------------------- generations (C11, C13, C14, C19)
JudgeIterStop(g, o) ==
    IF o.stop = g.canc THEN {}
    \* a request made by a callback of this very iteration: now or at the next
    ELSE IF o.stop /\ g.b.asks /\ Len(o.del) > 0 THEN {}
    ELSE IF g.canc /\ g.lost THEN {<<"cancel-lost-on-start", 0>>} ELSE {<<"stop", g.canc>>}
JudgeDeliveries(w, g, c, o) ==
    LET n == Len(g.b.cbs) IN
    IF "same" \in DOMAIN o /\ ~o.same THEN {<<"iterate-changed", c.tag>>}
    ELSE IF n = 0 THEN Need(o.del = <<>>, "delivery-without-callback", 0)
    ELSE IF o.del = <<>> THEN Need(~MustDeliver(g, w.now), "missing-delivery", [now |-> w.now, first |-> g.first, last |-> g.last])
    ELSE Need(MayDeliver(g, w.now), "delivery-too-soon", [now |-> w.now, last |-> g.last]) \cup
         Need(Len(o.del) = n /\ \A i \in 1..n : o.del[i].cb = g.b.cbs[i], "callback-order", g.b.cbs) \cup
         Need(\A i \in 1..Len(o.del) : o.del[i].h = g.handle, "callback-handle", g.handle) \cup
         Need(\A i \in 1..Len(o.del) : o.del[i].tag = c.tag, "callback-iterate", c.tag)
JudgeFinish(g, c, o) ==
    LET code == c.code IN
    IF code \in SuccessCodes
    THEN In("result", Need(o.res = "ok", "not-a-solution", code)) \cup
         In("solution", Need(o.res = "ok" /\ g.tag # 0 => o.tag = g.tag, "solution-values", g.tag))
    ELSE In("result", Need(o.res = "err", "not-a-failure", code) \cup Need(o.res = "err" => code \in Range(o.msgs), "failure-text", code))

\* generations running freely while cancellation is requested: each stops at the first
\* iteration that begins after the request, none before the request
JudgeStorm(c, o) ==
    UNION {LET e == o.ends[i] IN
           Need(~e.early, "stop", FALSE) \cup Need(~e.late, "stop", TRUE) \cup
           Need(e.res = "err" /\ (e.res = "err" => StopCode \in Range(e.msgs)), "failure-text", StopCode) : i \in 1..Len(c.gs)}

\* ------------------------------------------------------------ returned solution (C12)
Same(p, q, k) == Len(p) = Len(q) /\ \A i \in 1..Len(q) : p[i] = k * q[i]
DtOf(counts, dt) == [n \in 1..SumTo(counts, Len(counts)) |-> dt[SegmentOf(counts, n - 1)]]
JudgeSolution(b, t, o) ==
    LET T == Total(b.counts)  K == 1 IN
    Need(o.assigned, "unassignable", 0) \cup
    IF ~o.assigned THEN {} ELSE
    Need(o.has, "no-solution", 0) \cup
    IF ~o.has THEN {} ELSE
    Need(\A i \in 1..10 : o.shape.arr[i] = T, "array-size", T) \cup
    Need(o.shape.dt = T - 1, "dt-size", T - 1) \cup
    Need(Len(o.shape.fx) = T /\ Len(o.shape.fy) = T /\ \A n \in 1..T : o.shape.fx[n] = NMods(b.drive) /\ o.shape.fy[n] = NMods(b.drive), "force-size", T) \cup
    Need(\A f \in {"x", "y", "c", "s", "vx", "vy", "w", "ax", "ay", "al"} : Same(o.sol[f], t[f], K), "solution-values", t) \cup
    Need(Same(o.sol.dt, DtOf(b.counts, t.dt), K), "dt-values", DtOf(b.counts, t.dt)) \cup
    Need(\A n \in 1..T : n <= Len(o.sol.fx) /\ n <= Len(o.sol.fy) /\ Same(o.sol.fx[n], t.fx[n], K) /\ Same(o.sol.fy[n], t.fy[n], K), "force-values", t)

\* ---------------------------------------------------------------- all of it
Judge(w, c, o) ==
    LET nxt(d) == Step(w, c, d) IN
    IF ~o.ok THEN Bad(w, {<<"exception", o>>}) ELSE
    CASE c.op = "q_path"   -> Bad(w, In("path", JudgePath(w.b[B(c)], o)))
      [] c.op = "q_counts" -> Bad(w, In("path", Need(o.ns = w.b[B(c)].counts, "counts", w.b[B(c)].counts)))
      [] c.op = "q_drive"  -> Bad(w, In("path", JudgeDrive(w.b[B(c)], o)))
      [] c.op = "q_cbs"    -> Bad(w, In("path", Need(o.n = Len(w.b[B(c)].cbs), "callbacks", Len(w.b[B(c)].cbs))))
      [] c.op = "q_guess"  -> Bad(w, In("guess", JudgeGuess(w.b[B(c)], o)))
      [] c.op = "q_start"  -> Bad(w, In("start", JudgeStart(w.g[c.g].b, o)) \cup In("roles", JudgeStartRoles(o)))
      [] c.op = "probe"    -> LET j == In("probe", JudgeProbe(w.g[c.g].b, c.trajs, o)) IN
                              [st |-> w, bad |-> {x \in j : x[1] \notin Excused}, soft |-> {x \in j : x[1] \in Excused}]
      [] c.op = "cost"     -> Bad(w, In("cost", JudgeCost(w.g[c.g].b, c.trajs, o)))
      [] c.op = "start"    -> Bad(nxt(FALSE), In("result", Need(o.entered, "solver-not-entered", 0) \cup
                                Need(o.diag = c.diag, "diagnostics", c.diag) \cup Need(o.tol9 = 100000, "tolerance", o.tol9)))
      [] c.op = "iter"     -> LET j == In("stop", JudgeIterStop(w.g[c.g], o)) IN
                              [st |-> nxt(Len(o.del) > 0),
                               bad |-> {x \in j : x[1] = "stop"} \cup In("deliver", JudgeDeliveries(w, w.g[c.g], c, o)),
                               soft |-> {x \in j : x[1] # "stop"}]
      [] c.op \in {"finish", "finish_keep"} -> Bad(nxt(FALSE), JudgeFinish(w.g[c.g], c, o))
      [] c.op = "storm"    -> Bad(nxt(FALSE), In("stop", JudgeStorm(c, o)))
      [] c.op = "kept_tag" -> Bad(w, In("solution", Need(o.tag = w.kept[c.r], "kept-result-changed", w.kept[c.r])))
      [] c.op = "assign_finish" -> Bad(w, In("solution", JudgeSolution(w.g[c.g].b, c.traj, o)))
      [] OTHER             -> OK(nxt(FALSE))

TraceSpec == TraceInit(World0) /\ [][TraceNext(World0, Judge)]_<<l, st, skip>>
===============================================================================
