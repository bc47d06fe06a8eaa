-------------------------------- MODULE Gen_Robot --------------------------------
(* Drivetrains, trajectories that obey motion and dynamics with every limit just   *)
(* met, and small departures from them (C08, C09, C10).                            *)
EXTENDS Traj, GenLang
CONSTANTS Lang, Behaviours, Mutants, Focus     \* Focus: "motion", "dynamics" or "step"
VARIABLES i
vars == <<i>>

RECURSIVE Total2(_)
Total2(v) == IF v = <<>> THEN <<0, 0>> ELSE LET r == Total2(Tail(v)) IN <<v[1][1] + r[1], v[1][2] + r[2]>>
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Root(n) == CHOOSE k \in 0..2000 : k * k >= n /\ (k = 0 \/ (k - 1) * (k - 1) < n)
\* least r with r * u >= sqrt(n)
CeilOver(n, u) == CHOOSE k \in 0..2000 : k * k * u * u >= n /\ (k = 0 \/ (k - 1) * (k - 1) * u * u < n)

\* ---------------------------------------------------------------- families
\* straight: no turning, any fixed heading;  quarter, small, large: turning by 90, 36.9, 53.1 degrees
FamOf(name) ==
    CASE name = "straight" -> [ang |-> <<0, 1, 1>>, scale |-> 30, spots |-> {<<a, b>> : a, b \in -2..2}, turn |-> FALSE]
      [] name = "quarter"  -> [ang |-> <<0, 1, 1>>, scale |-> 20, spots |-> {<<1, 0>>, <<-1, 0>>}, turn |-> TRUE]
      [] name = "small"    -> [ang |-> <<4, 3, 5>>, scale |-> 24, spots |-> {<<a, b>> : a, b \in -1..1}, turn |-> TRUE]
      [] name = "large"    -> [ang |-> <<3, 4, 5>>, scale |-> 40, spots |-> {<<1, 0>>, <<-1, 0>>, <<0, 1>>, <<0, -1>>, <<0, 0>>}, turn |-> TRUE]
StraightHeads(u) == CASE u = 1 -> {<<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -1>>}
    [] u = 5 -> {<<3, 4>>, <<-4, 3>>, <<4, -3>>, <<-3, -4>>} [] u = 13 -> {<<5, 12>>, <<-12, 5>>, <<12, -5>>}

\* module places: pair style starts with two places one spacing apart along x; else all in one place
Pairs(f) == {<<p, q>> \in f.spots \X f.spots : p[2] = q[2] /\ p[1] > q[1] /\ (p[1] = q[1] + 1 \/ ~(<<p[1] - 1, p[2]>> \in f.spots))}
PlacesPair(f, M) == LET pr == Pick(Pairs(f)) IN TLCEval([k \in 1..M |-> IF k <= 2 THEN pr[k] ELSE Pick(f.spots)])
PlacesOne(f, M) == LET p == Pick(f.spots) IN TLCEval([k \in 1..M |-> p])

\* body-frame forces of all modules at one sample, and what they amount to
\* (pair style: modules 1 and 2 make the torque come out at moi * al)
TorqueB(P, F) == LET RECURSIVE S(_)
                     S(k) == IF k = 0 THEN 0 ELSE P[k][1] * F[k][2] - P[k][2] * F[k][1] + S(k - 1)
                 IN S(Len(P))
ForcesPair(P, mass, ab, m0, al) ==
    LET M == Len(P)  delta == P[1][1] - P[2][1]
        F0 == TLCEval([k \in 1..M |-> <<Pick(-3..3), Pick(-3..3)>>])
        rest == Total2(Tail(F0))
        F1 == TLCEval([F0 EXCEPT ![1] = <<mass * ab[1] - rest[1], mass * ab[2] - rest[2]>>])
        g == m0 * al - TorqueB(P, F1) \div delta
    IN TLCEval([F1 EXCEPT ![1] = <<@[1], @[2] + g>>, ![2] = <<@[1], @[2] - g>>])
ForcesOne(P, mass, ab) ==
    LET M == Len(P)
        F0 == TLCEval([k \in 1..M |-> <<Pick(-3..3), Pick(-3..3)>>])
        rest == Total2(Tail(F0))
    IN TLCEval([F0 EXCEPT ![1] = <<mass * ab[1] - rest[1], mass * ab[2] - rest[2]>>])
Turned2(h, v) == <<h[1] * v[1] - h[2] * v[2], h[2] * v[1] + h[1] * v[2]>>

\* angular accelerations such that turn rates stay within most and the whole turn within lim;
\* D: the intervals' lengths; w0 the first rate.  (<<>>: a dead end)
RECURSIVE Twists(_, _, _, _, _, _)
Twists(D, lim, most, als, w, K) ==
    LET n == Len(als) + 1 IN
    IF n > Len(D) THEN als
    ELSE LET ok == {a \in -3..3 : w + a * D[n] \in (-most)..most /\ K + (w + a * D[n]) * D[n] \in (-lim)..lim} IN
         IF ok = {} THEN <<>> ELSE LET a == Pick(ok) IN Twists(D, lim, most, Append(als, a), w + a * D[n], K + (w + a * D[n]) * D[n])

\* ------------------------------------------------------------------ one case
\* c: everything chosen; gives drive and base trajectory
Base(c) ==
    LET T == Total(c.counts)
        acc(n) == Turned2(c.H[n], c.ab[n])
        F(n) == LET f == c.F[n] IN <<[k \in 1..c.M |-> Turned2(c.H[n], f[k])[1]], [k \in 1..c.M |-> Turned2(c.H[n], f[k])[2]]>>
        s0 == [x |-> c.x0[1], y |-> c.x0[2], vx |-> c.v0[1], vy |-> c.v0[2], w |-> c.W[1], h |-> c.h0]
    IN Simulate(c.counts, c.dt, s0, [n \in 1..T |-> acc(n)], c.AL, [n \in 1..T |-> F(n)],
                [uc |-> c.u, ud |-> c.u, ang |-> c.f.ang])
\* module limits that the base trajectory just meets; perm: order of the modules
DriveFor(c, t, perm) ==
    LET d0 == [mass |-> c.mass, moi |-> c.moi, ang |-> c.f.ang,
               mods |-> [k \in 1..c.M |-> [x |-> c.f.scale * c.P[k][1], y |-> c.f.scale * c.P[k][2], r |-> 1, w |-> 1, t |-> 1]]]
        T == Total(c.counts)  u == c.u
        need(k) == LET v == CeilOver(Max({Norm2(Wheel(d0, t, n, k)) : n \in 0..(T - 1)}), u * u) IN IF v = 0 THEN 1 ELSE v
        \* the speed at which the module just caps the longest time step
        far == IF t.dt = <<>> THEN 0 ELSE Max(Range(t.dt))
        cap == IF far = 0 \/ Spacings(d0) = {} THEN 0 ELSE (1000 * MinOf(Spacings(d0))) \div ((PhiMilli(c.f.ang) + 1) * far)
        R(k) == IF c.cap[k] = 0 THEN need(k) ELSE Max({need(k), cap + c.cap[k] - 1})
        F(k) == LET v == CeilOver(Max({Sq(t.fx[n][k]) + Sq(t.fy[n][k]) : n \in 1..T}), u) IN IF v = 0 THEN 1 ELSE v
        m(k) == LET r == IF R(k) % 2 = 0 /\ c.rr[k] = 2 THEN 2 ELSE 1 IN
                [x |-> d0.mods[k].x, y |-> d0.mods[k].y, r |-> r, w |-> R(k) \div r, t |-> F(k) * r]
    IN [op |-> "drive", mass |-> c.mass, moi |-> c.moi, ang |-> c.f.ang, mods |-> TLCEval([k \in 1..c.M |-> m(perm[k])])]
Permuted(t, perm) == [t EXCEPT !.fx = [n \in 1..Len(t.fx) |-> [k \in 1..Len(t.fx[n]) |-> t.fx[n][perm[k]]]],
                               !.fy = [n \in 1..Len(t.fy) |-> [k \in 1..Len(t.fy[n]) |-> t.fy[n][perm[k]]]]]
Perm(M) == LET RECURSIVE G(_, _)
               G(S, p) == IF S = {} THEN p ELSE LET x == Pick(S) IN G(S \ {x}, Append(p, x))
           IN G(1..M, <<>>)

\* departures: one entry off by one
FieldsOf(focus) == CASE focus = "motion" -> <<"x", "y", "vx", "vy", "w", "ax", "ay", "al", "c", "s">>
    [] focus = "dynamics" -> <<"fx", "fy", "ax", "ay", "al", "vx", "vy", "w", "fx", "fy">>
    [] focus = "step" -> <<"dt", "dt", "dt", "dt", "vx", "x">>
Mutant(t, M) ==
    LET f == PickFrom(FieldsOf(Focus))  d == Pick({-1, 1})  n == Pick(1..Len(t.x)) IN
    IF f \in {"fx", "fy"} THEN IF M = 0 THEN t ELSE LET k == Pick(1..M) IN [t EXCEPT ![f] = [@ EXCEPT ![n] = [@ EXCEPT ![k] = @ + d]]]
    ELSE IF f = "dt" THEN IF t.dt = <<>> THEN t ELSE LET k == Pick(1..Len(t.dt)) IN [t EXCEPT !.dt[k] = Pick({@ - 1, @ + 1, -1, 0, 4})]
    ELSE [t EXCEPT ![f] = [@ EXCEPT ![n] = @ + d]]
\* two entries off: forces that cancel in sum, or in torque; a velocity with its position
Mutant2(t, M) ==
    LET n == Pick(1..Len(t.x))  d == Pick({-1, 1})  f == Pick({"fx", "fy"}) IN
    IF Focus = "motion" \/ M < 2 THEN
        LET g == Pick({<<"x", "vx">>, <<"y", "vy">>}) IN [t EXCEPT ![g[1]] = [q \in 1..Len(t.x) |-> @[q] + (IF q >= n THEN d ELSE 0)], ![g[2]] = [@ EXCEPT ![n] = @ + d]]
    ELSE LET k == Pick(1..M)  j == Pick(1..M) IN
         [t EXCEPT ![f] = [@ EXCEPT ![n] = [q \in 1..M |-> @[q] + (IF q = k THEN d ELSE 0) - (IF q = j THEN d ELSE 0)]]]
\* one link broken and no other: from sample n on everything is moved along, sped up, turned
\* faster by whole turns or turned around
From(v, n, f(_)) == [q \in 1..Len(v) |-> IF q >= n THEN v[q] + f(q) ELSE v[q]]
Isolated(counts, t) ==
    LET n == Pick(1..Len(t.x))  d == Pick({-1, 1})  g == Pick({<<"x", "vx">>, <<"y", "vy">>})
        how == PickFrom(<<"place", "speed", "speed", "turn", "face">>)
        D == StepOf(counts, t.dt)
        Since(q) == d * SumSeq([k \in 1..q |-> IF k >= n THEN D[k] ELSE 0], q)
        one(q) == d  spin(q) == IF t.ang[3] = 1 THEN 4 * d ELSE d
        around(q) == IF q >= n THEN <<-d * t.s[q], d * t.c[q]>> ELSE <<t.c[q], t.s[q]>> IN
    CASE how = "place" -> [t EXCEPT ![g[1]] = From(@, n, one)]
      [] how = "speed" -> [t EXCEPT ![g[2]] = From(@, n, one), ![g[1]] = From(@, n, Since)]
      [] how = "turn"  -> [t EXCEPT !.w = From(@, n, spin)]
      [] OTHER -> [t EXCEPT !.c = [q \in 1..Len(@) |-> around(q)[1]], !.s = [q \in 1..Len(@) |-> around(q)[2]]]
\* lower (or raise) one limit of one module
Tighter(d) ==
    IF d.mods = <<>> THEN d
    ELSE LET k == Pick(1..Len(d.mods))  f == Pick({"w", "t"}) IN [d EXCEPT !.mods[k] = [@ EXCEPT ![f] = IF @ > 1 THEN @ - 1 ELSE @]]
Moved(d) ==
    IF d.mods = <<>> THEN d
    ELSE LET k == Pick(1..Len(d.mods))  f == Pick({"x", "y"}) IN [d EXCEPT !.mods[k] = [@ EXCEPT ![f] = @ + Pick({-1, 1})]]

\* slow wheels and modules slightly out of line: narrow spacings that cap the time steps
Narrow(d) ==
    LET slow == [k \in 1..Len(d.mods) |-> [d.mods[k] EXCEPT !.r = 1, !.w = 1]] IN
    IF d.mods = <<>> THEN d
    ELSE LET k == Pick(1..Len(d.mods))  f == Pick({"x", "y"}) IN [d EXCEPT !.mods = [slow EXCEPT ![k] = [@ EXCEPT ![f] = @ + Pick({-1, 1}) * Pick(1..6)]]]
\* other time steps (a robot at rest may take any that the cap allows)
Slower(t) == IF Focus # "step" THEN <<>> ELSE TLCEval([k \in 1..6 |-> LET d == Pick(0..8) IN [t EXCEPT !.dt = TLCEval([q \in 1..Len(@) |-> IF Pick(1..2) = 1 THEN d ELSE Pick(0..8)])]])
Probe(g, ts) == [op |-> "probe", g |-> g, trajs |-> ts]
\* Which variable is which (C12): the guess the solver starts from, a trajectory that is
\* admitted and the same with two roles exchanged; then whatever the solver leaves is returned.
Swap(t, f, g) == [t EXCEPT ![f] = t[g], ![g] = t[f]]
Roles == <<<<"x", "y">>, <<"vx", "vy">>, <<"ax", "ay">>, <<"fx", "fy">>, <<"vx", "ax">>, <<"vy", "ay">>, <<"w", "al">>, <<"x", "vx">>>>
Backwards(t) == [f \in DOMAIN t |-> IF f \in {"uc", "ud", "ang"} THEN t[f] ELSE LET n == Len(t[f]) IN [k \in 1..n |-> t[f][n + 1 - k]]]
\* any numbers at all (with more digits than single precision holds)
Digits(z) == Pick({Pick(-900..900), 1000000 * Pick(-900..900) + Pick(0..999999)})
Anything(counts, M, h) ==
    LET T == Total(counts)  A(z) == [n \in 1..T |-> Digits(0)]  F(z) == [n \in 1..T |-> [k \in 1..M |-> Digits(0)]] IN
    TLCEval([x |-> A(0), y |-> A(0), c |-> h[1], s |-> h[2], vx |-> A(0), vy |-> A(0), w |-> A(0), ax |-> A(0), ay |-> A(0), al |-> A(0),
             fx |-> F(0), fy |-> F(0), dt |-> [k \in 1..Len(counts) |-> Digits(0)]])
\* headings: any numbers, or nearly unit vectors in units of 1/1024
AnyHeads(T) == <<[n \in 1..T |-> Digits(0)], [n \in 1..T |-> Digits(0)]>>
NearlyUnit(T) == CHOOSE h \in {<<p, [n \in 1..T |-> Pick({1, -1}) * (Root(1024 * 1024 - p[n] * p[n]) + Pick(-2..2))]>>
                              : p \in {TLCEval([n \in 1..T |-> Pick({0, 5, 1020, 1024, -1024, Pick(-1024..1024), Pick(-1024..1024)})])}} : TRUE
EndWith(g, counts, M) ==
    LET T == Total(counts)
        any == [op |-> "assign_finish", g |-> g, code |-> Pick({0, 1}), e |-> PickFrom(<<0, 0, 40, -40>>), traj |-> Anything(counts, M, TLCEval(AnyHeads(T)))] IN
    IF Pick(1..3) > 1 THEN any ELSE [any EXCEPT !.e = -10, !.traj = Anything(counts, M, TLCEval(NearlyUnit(T)))]
Ending(S, counts, d, t, dp, tp) ==
    LET M == Len(d.mods) IN
    [k \in 1..(S + 1) |-> [op |-> "wpt_guess", i |-> k - 1, p |-> <<Pick(-9..9), Pick(11..19), [deg |-> 15 * Pick(-12..12)]>>]]
    \o <<[op |-> "counts", ns |-> counts], d, [op |-> "new_gen", g |-> 0], [op |-> "q_start", g |-> 0],
         Probe(0, <<t>> \o [k \in 1..Len(Roles) |-> Swap(t, Roles[k][1], Roles[k][2])] \o <<Backwards(t), Permuted(t, Perm(M))>>),
         EndWith(0, counts, M), EndWith(0, counts, M),
         dp, [op |-> "new_gen", g |-> 1], Probe(1, <<tp, t>>), [op |-> "move_gen", g |-> 1], EndWith(1, counts, M), EndWith(0, counts, M)>>
\* requests that every trajectory here meets (with room to spare): they change nothing
Loose(S) ==
    LET a == Pick(0..S)  b == Pick(a..S)
        c == PickFrom(<<[t |-> "linvel", m |-> 40000], [t |-> "linacc", m |-> 40000], [t |-> "angvel", m |-> 1000], [t |-> "pointat", f |-> <<2000, 0>>, m |-> [deg |-> 180]]>>)
    IN IF a = b THEN [op |-> "wpt_con", i |-> a, c |-> c] ELSE [op |-> "seg_con", i |-> a, j |-> b, c |-> c]
Requests(S) == TLCEval([k \in 1..Pick({0, 0, 1, 3}) |-> Loose(S)])
Case(z) ==
    \E long \in {z % 12 = 5} :
    \E fam \in {IF long THEN "straight" ELSE IF Focus = "step" THEN Pick({"straight", "quarter"}) ELSE Pick({"straight", "quarter", "small", "large"})} :
    \E f \in {FamOf(fam)} :
    \E u \in {CASE fam = "straight" -> Pick({1, 5, 13}) [] fam = "quarter" -> Pick({1, 5}) [] OTHER -> 25} :
    \* now and then many modules, many segments or many samples
    \E big \in {IF long THEN 3 ELSE IF fam = "straight" THEN Pick(0..12) ELSE 0} : \E kind \in {Pick({0, 1})} :
    \* one wheel size; wheel speeds that just cap the time steps, now and then one a little faster
    \E even \in {Pick({TRUE, FALSE})} :
    \E M \in {IF big = 1 THEN Pick(6..10) ELSE IF Focus = "motion" THEN PickFrom(<<0, 0, 1, 2, 3, 4, 4, 5>>) ELSE Pick({0, 1, 2, 3, 4, 4, 5})} : \E pair \in {M >= 2 /\ Pick(1..5) # 1} :
    \E S \in {IF big = 2 THEN Pick(4..8) ELSE IF big = 3 THEN Pick(1..2) ELSE Pick({0, 1, 2, 2, 3})} :
    \E counts \in {TLCEval([k \in 1..S |-> IF long THEN Pick({Pick(30..160), Pick(1..60)}) ELSE IF big = 3 THEN Pick(1..20) ELSE Pick(1..(IF Focus = "solution" /\ k = S THEN 4 ELSE 2))])} : \E T \in {Total(counts)} :
    \E rest \in {Pick(1..(IF Focus = "step" THEN 3 ELSE 6)) < (IF Focus = "step" THEN 3 ELSE 2)} :
    \E cap \in {TLCEval(LET fast == Pick(0..(2 * M)) IN [k \in 1..M |-> IF Focus # "step" \/ kind = 0 THEN 0 ELSE IF k = fast THEN 2 ELSE Pick({0, 1})])} :
    \E P \in {IF pair THEN PlacesPair(f, M) ELSE PlacesOne(f, M)} :
    \E mass \in {IF fam = "quarter" THEN 2 * Pick(1..2) ELSE Pick(1..3)} : \E m0 \in {PickFrom(<<0, 1, 1, 2, 2>>)} : \E mutants \in {IF long THEN 12 ELSE Mutants} :
    \E free \in {(pair \/ M = 0) /\ ~rest} :
    \E dt \in {TLCEval([k \in 1..S |-> IF ~f.turn THEN Pick({0, 1, 1, 2, 3}) ELSE IF M = 0 \/ rest THEN PickFrom(<<0, 1, 1, 2, 3>>) ELSE PickFrom(<<1, 1, 1, 2>>)])} :
    \E D \in {StepOf(counts, dt)} : \E lim \in {IF fam = "quarter" THEN 40 ELSE 2} : \E most \in {IF fam = "quarter" \/ M = 0 THEN 2 ELSE 1} :
    \E w0 \in {IF ~f.turn \/ rest THEN 0 ELSE Pick(IF free THEN (-most)..most ELSE -1..1)} :
    \E AL1 \in {IF free /\ f.turn THEN TLCEval(Twists(D, lim, most, <<Pick(-1..1)>>, w0, 0)) ELSE <<>>} :
    \E AL \in {IF AL1 = <<>> THEN TLCEval([n \in 1..T |-> IF n = 1 /\ free THEN Pick(-1..1) ELSE 0]) ELSE AL1} :
    \E WW \in {IF AL1 = <<>> /\ CAbs(w0) * SumSeq(D, T) > lim THEN [n \in 1..T |-> 0] ELSE TLCEval(Accum(w0, AL, D))} :
    \E h0 \in {CASE fam = "straight" -> Pick(StraightHeads(u)) [] fam = "quarter" -> Pick(StraightHeads(u)) [] OTHER -> <<25, 0>>} :
    \E K \in {Accum(0, WW, D)} :
    \E H \in {TLCEval([n \in 1..T |-> TurnBy(h0, f.ang, K[n])])} :
    \E ab \in {TLCEval([n \in 1..T |-> IF rest \/ M = 0 THEN <<0, 0>>
                   ELSE IF pair THEN IF fam = "large" /\ Pick(1..3) # 1 THEN <<0, 0>> ELSE <<Pick(-1..1), Pick(-1..1)>> ELSE LET q == Pick(-1..1) IN
                        IF P[1] = <<0, 0>> THEN <<q, Pick(-1..1)>> ELSE <<q * P[1][1], q * P[1][2]>>])} :
    \E F \in {TLCEval([n \in 1..T |-> IF M = 0 THEN <<>> ELSE IF rest THEN [k \in 1..M |-> <<0, 0>>]
                   ELSE IF pair THEN ForcesPair(P, mass, ab[n], m0, AL[n]) ELSE ForcesOne(P, mass, ab[n])])} :
    \E c \in {[f |-> f, u |-> u, M |-> M, P |-> P, mass |-> mass, moi |-> IF pair THEN m0 * f.scale * (P[1][1] - P[2][1]) ELSE IF free THEN 0 ELSE 7 * m0,
               counts |-> counts, dt |-> dt, H |-> H, h0 |-> h0, ab |-> ab, F |-> F, W |-> WW, AL |-> AL,
               x0 |-> <<Pick(-9..9), Pick(-9..9)>>, v0 |-> IF rest THEN <<0, 0>> ELSE LET m == IF fam = "large" THEN u ELSE 2 * u IN <<Pick((-m)..m), Pick((-m)..m)>>,
               rr |-> TLCEval([k \in 1..M |-> IF even THEN 1 ELSE Pick(1..2)]), cap |-> cap]} :
    \E t \in {TLCEval(Base(c))} : \E perm \in {Perm(M)} :
    \E d \in {DriveFor(c, t, [k \in 1..M |-> k])} : \E dp \in {DriveFor(c, t, perm)} :
       EmitIn(Lang, IF Focus = "solution" THEN Ending(S, counts, d, t, dp, Permuted(t, perm)) ELSE
                <<[op |-> "wpt_guess", i |-> S, p |-> <<0, 0, [deg |-> 0]>>]>> \o Away(S) \o Requests(S) \o <<[op |-> "counts", ns |-> counts],
                  d, [op |-> "new_gen", g |-> 0],
                  Probe(0, <<t>> \o [k \in 1..mutants |-> IF Focus = "motion" /\ Pick(1..(IF long THEN 3 ELSE 6)) < 3 THEN Isolated(counts, t)
                                                    ELSE IF Pick(1..(IF long THEN 2 ELSE 4)) = 1 THEN Mutant2(t, M) ELSE Mutant(t, M)]),
                  dp, [op |-> "new_gen", g |-> 1], Probe(1, <<Permuted(t, perm), t>>),
                  Tighter(d), [op |-> "new_gen", g |-> 2], Probe(2, <<t>>),
                  Tighter(dp), [op |-> "new_gen", g |-> 3], Probe(3, <<Permuted(t, perm)>>),
                  IF Pick(1..2) = 1 THEN Tighter(d) ELSE Moved(d), [op |-> "new_gen", g |-> 0], Probe(0, <<t>>),
                  IF Focus = "step" THEN Narrow(d) ELSE Moved(d), [op |-> "new_gen", g |-> 2], Probe(2, <<t>> \o Slower(t)),
                  IF Focus = "step" THEN Narrow(d) ELSE Moved(d), [op |-> "new_gen", g |-> 3], Probe(3, <<t>> \o Slower(t)),
                  [op |-> "cost", g |-> 1, trajs |-> <<t, Mutant(t, M), [t EXCEPT !.dt = [k \in 1..S |-> Pick(0..9)]]>>]>>)
\* headings half a turn off, or of lengths r, 1/r, ...: a robot at rest
Odd(z) ==
    \E S \in {Pick(0..2)} : \E counts \in {TLCEval([k \in 1..S |-> Pick(1..2)])} : \E T \in {Total(counts)} :
    \E from \in {Pick(1..T)} :
    \E r \in {[dt |-> [k \in 1..S |-> 1], x |-> [n \in 1..T |-> 3], y |-> [n \in 1..T |-> 4], vx |-> [n \in 1..T |-> 0], vy |-> [n \in 1..T |-> 0],
               ax |-> [n \in 1..T |-> 0], ay |-> [n \in 1..T |-> 0], w |-> [n \in 1..T |-> 0], al |-> [n \in 1..T |-> 0],
               fx |-> [n \in 1..T |-> <<>>], fy |-> [n \in 1..T |-> <<>>], uc |-> 2, ud |-> 1,
               c |-> [n \in 1..T |-> 2], s |-> [n \in 1..T |-> 0]]} :
       EmitUnits(<<[op |-> "wpt_guess", i |-> S, p |-> <<0, 0, [deg |-> 0]>>]>> \o Away(S) \o <<[op |-> "counts", ns |-> counts],
                  [op |-> "drive", mass |-> 1, moi |-> 1, mods |-> <<>>], [op |-> "new_gen", g |-> 0],
                  Probe(0, <<r, [r EXCEPT !.c = [n \in 1..T |-> IF n >= from THEN -2 ELSE 2]],
                             [r EXCEPT !.c = [n \in 1..T |-> IF n % 2 = 1 THEN 4 ELSE 1]],
                             [r EXCEPT !.c = [n \in 1..T |-> IF n = from THEN 4 ELSE 2]],
                             [r EXCEPT !.c = [n \in 1..T |-> IF n >= from THEN 0 ELSE 2], !.s = [n \in 1..T |-> IF n >= from THEN 2 ELSE 0]]>>)>>)
Init == i = 0
Next == i < Behaviours /\ i' = i + 1 /\ IF Focus = "motion" /\ i % 10 = 0 THEN Odd(i) ELSE Case(i)
Spec == Init /\ [][Next]_vars
===============================================================================
