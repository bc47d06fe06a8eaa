------------------------------- MODULE Gen_Place -------------------------------
(* Paths with constraints of every type at waypoints and over (overlapping)        *)
(* ranges, and trajectories that violate one of them at one chosen sample (C03).   *)
EXTENDS Traj, GenLang
CONSTANTS MaxSeg, MaxN, MaxCons, Lang
VARIABLES i
vars == <<i>>
CONSTANT Behaviours

Quarter == <<0, 1, 1>>
\* two modules half a metre (well: 500 / phi) either side; moi 0, mass 2: a force of a on each
Drive == [op |-> "drive", mass |-> 2, moi |-> 0, ang |-> Quarter,
          mods |-> << [x |-> 500, y |-> 0, r |-> 1, w |-> 600, t |-> 9000], [x |-> -500, y |-> 0, r |-> 1, w |-> 600, t |-> 9000] >>]
\* the trajectory with velocities V, turn rates W, all time steps 1, passing through p0 at sample at
Go(counts, p0, at, V, W) ==
    LET T == Total(counts)
        vx == [n \in 1..T |-> V[n][1]]  vy == [n \in 1..T |-> V[n][2]]
        one == [n \in 1..T |-> 1]
        xs == Accum(0, vx, one)  ys == Accum(0, vy, one)
        A == [n \in 1..T |-> <<Diffs(vx)[n], Diffs(vy)[n]>>]
        F == [n \in 1..T |-> <<(<<A[n][1], A[n][1]>>), (<<A[n][2], A[n][2]>>)>>]
        K == Accum(0, W, one)
        dt == [k \in 1..Len(counts) |-> 1]
        s0 == [x |-> p0[1] - xs[at + 1], y |-> p0[2] - ys[at + 1], vx |-> V[1][1], vy |-> V[1][2], w |-> W[1], h |-> <<1, 0>>]
    IN Simulate(counts, dt, s0, A, Diffs(W), F, [uc |-> 1, ud |-> 1, ang |-> Quarter])
Still(T) == [n \in 1..T |-> 0]
Const(T, v) == [n \in 1..T |-> v]

\* ---------------------------------------------------------------- moving past lanes
\* constraint number k of a kind, in lane k where it has one; now and then a limit that is not reached
Moving == IF Lang = "rust" THEN {"obs", "linvel", "linacc", "angvel", "veldir", "pointat"} ELSE {"pp", "lp", "pl", "obs", "linvel", "linacc", "angvel", "veldir", "pointat"}
Con(kind, k) ==
    CASE kind = "pp" -> [t |-> "pp", r |-> <<0, 0>>, f |-> <<0, 10 * k>>, m |-> 2]
      [] kind = "lp" -> [t |-> "lp", r |-> <<1, 0>>, r2 |-> <<-1, 0>>, f |-> <<0, 10 * k>>, m |-> 2]
      [] kind = "pl" -> [t |-> "pl", r |-> <<0, 0>>, f |-> <<0, 10 * k - 1>>, f2 |-> <<0, 10 * k + 1>>, m |-> 2]
      [] kind = "linvel" -> [t |-> "linvel", m |-> PickFrom(<<12, 12, 13, 20>>)]
      [] kind = "linacc" -> [t |-> "linacc", m |-> PickFrom(<<6, 6, 7, 9>>)]
      [] kind = "angvel" -> [t |-> "angvel", m |-> PickFrom(<<1, 1, 2>>)]
      [] kind = "veldir" -> [t |-> "veldir", a |-> [deg |-> 0]]
      [] kind = "pointat" -> [t |-> "pointat", f |-> <<20000, 0>>, m |-> [deg |-> PickFrom(<<45, 45, 60, 120>>)]]
PCall(kind, k, a, b) ==
    IF kind = "obs" THEN
        IF a = b THEN [op |-> "wpt_obs", i |-> a, sd |-> 1, pts |-> << <<0, 10 * k>> >>]
        ELSE [op |-> "seg_obs", i |-> a, j |-> b, sd |-> 1, pts |-> << <<0, 10 * k>> >>]
    ELSE IF a = b THEN [op |-> "wpt_con", i |-> a, c |-> Con(kind, k)]
    ELSE [op |-> "seg_con", i |-> a, j |-> b, c |-> Con(kind, k)]
Base(T) == Const(T, <<10, 0>>)
Free == <<0, -1000>>
\* the samples tried: all, or some of very many (most of them late)
Spots(T) == IF T < 50 THEN [k \in 1..T |-> k] ELSE [k \in 1..6 |-> IF Pick(1..3) = 1 THEN Pick(1..T) ELSE Pick(((2 * T) \div 3)..T)]
\* violations of the kinds at these samples (from there on, in some)
Lanes(counts, k, At)  == [q \in 1..Len(At) |-> LET p == At[q] IN Go(counts, <<0, 10 * k>>, p - 1, Base(Total(counts)), Still(Total(counts)))]
Spikes(counts, At)    == LET T == Total(counts) IN [q \in 1..Len(At) |-> LET p == At[q] IN Go(counts, Free, 0, [Base(T) EXCEPT ![p] = <<14, 0>>], Still(T))]
Steps(counts, At)     == LET T == Total(counts) IN [q \in 1..Len(At) |-> LET p == At[q] IN Go(counts, Free, 0, [n \in 1..T |-> IF n < p THEN <<4, 0>> ELSE <<12, 0>>], Still(T))]
Swerves(counts, At)   == LET T == Total(counts) IN [q \in 1..Len(At) |-> LET p == At[q] IN Go(counts, Free, 0, [Base(T) EXCEPT ![p] = <<10, 5>>], Still(T))]
Turns1(counts, At)    == LET T == Total(counts) IN [q \in 1..Len(At) |-> LET p == At[q] IN Go(counts, Free, 0, Base(T), [Still(T) EXCEPT ![p] = 1])]
Nods(counts, At)      == LET T == Total(counts) IN [q \in 1..Len(At) |-> LET p == At[q] IN Go(counts, Free, 0, Base(T),
                          [n \in 1..T |-> IF n = p THEN 1 ELSE IF n = p + 1 THEN -1 ELSE 0])]
Probes(counts, kinds, At) ==
    LET T == Total(counts)
        RECURSIVE L(_)
        L(k) == IF k > Len(kinds) THEN <<>> ELSE (IF kinds[k] \in {"pp", "lp", "pl", "obs"} THEN Lanes(counts, k, At) ELSE <<>>) \o L(k + 1)
        has(kind) == \E k \in 1..Len(kinds) : kinds[k] = kind
    IN L(1) \o <<Go(counts, Free, 0, Base(T), Still(T))>>
       \o (IF has("linvel") THEN Spikes(counts, At) ELSE <<>>) \o (IF has("linacc") THEN Steps(counts, At) ELSE <<>>)
       \o (IF has("veldir") THEN Swerves(counts, At) ELSE <<>>) \o (IF has("angvel") THEN Turns1(counts, At) ELSE <<>>)
       \o (IF has("pointat") THEN Nods(counts, At) ELSE <<>>)

\* ------------------------------------------------------------------ standing at a pose
Standing == {"pose", "trans"}
StandCon(kind) == IF kind = "pose" THEN [t |-> "pose", x |-> 0, y |-> 0, h |-> [deg |-> 0]] ELSE [t |-> "trans", x |-> 0, y |-> 0]
StandCall(kind, a, b) ==
    IF a = b THEN IF kind = "pose" /\ Pick({TRUE, FALSE}) THEN [op |-> "pose_wpt", i |-> a, x |-> 0, y |-> 0, h |-> [deg |-> 0]]
                  ELSE IF kind = "trans" /\ Pick({TRUE, FALSE}) THEN [op |-> "trans_wpt", i |-> a, x |-> 0, y |-> 0]
                  ELSE [op |-> "wpt_con", i |-> a, c |-> StandCon(kind)]
    ELSE [op |-> "seg_con", i |-> a, j |-> b, c |-> StandCon(kind)]
Bump(T, p, v) == [n \in 1..T |-> IF n = p THEN v ELSE IF n = p + 1 THEN <<-v[1], -v[2]>> ELSE <<0, 0>>]
Blips(counts, At) ==
    LET T == Total(counts) IN
    [q \in 1..Len(At) |-> LET p == At[q] IN Go(counts, IF p = 1 THEN <<3, 0>> ELSE <<0, 0>>, 0, IF p = 1 THEN Bump(T, 1, <<3, 0>>) ELSE Bump(T, p, <<3, 0>>), Still(T))]
    \o [q \in 1..Len(At) |-> LET p == At[q] IN Go(counts, IF p = 1 THEN <<0, 3>> ELSE <<0, 0>>, 0, IF p = 1 THEN Bump(T, 1, <<0, 3>>) ELSE Bump(T, p, <<0, 3>>), Still(T))]
    \* the heading: at sample 0 the robot starts turned away and turns back
    \o [q \in 1..Len(At) |-> LET p == At[q]  W == [n \in 1..T |-> IF n = p /\ p > 1 THEN 1 ELSE IF n = p + 1 THEN -1 ELSE 0]
                           g == Go(counts, <<0, 0>>, 0, Const(T, <<0, 0>>), W)
                       IN IF p > 1 THEN g
                          ELSE [g EXCEPT !.c = [n \in 1..T |-> IF n = 1 THEN 0 ELSE 1], !.s = [n \in 1..T |-> IF n = 1 THEN 1 ELSE 0]]]
    \o <<Go(counts, <<0, 0>>, 0, Const(T, <<0, 0>>), Still(T))>>

\* -------------------------------------------------------------------------- cases
RECURSIVE Interleave(_, _)
\* the calls in order, with the counts call at a random place
Interleave(calls, c) == LET p == Pick(0..Len(calls)) IN SubSeq(calls, 1, p) \o <<c>> \o SubSeq(calls, p + 1, Len(calls))
Case(z) ==
    \E S \in {IF Pick(1..12) = 1 THEN Pick(MaxSeg..3 * MaxSeg) ELSE PickFrom(<<0, 1, 1, 2>> \o [k \in 1..MaxSeg |-> k])} :
    \* now and then one longer segment, and now and then many constraints on one range
    \E long \in {IF Pick(1..6) = 1 /\ S <= MaxSeg THEN Pick(1..3) ELSE 0} :
    \E counts \in {[k \in 1..S |-> IF k = long THEN Pick(MaxN..PickFrom(<<4, 4, 16, 50>>) * MaxN) ELSE Pick(1..(IF S > MaxSeg THEN 2 ELSE MaxN))]} :
    \* now and then the same limit twice, of different height
    \E heap \in {Pick(1..4) = 1} : \E twin \in {Pick(1..4) = 1} :
    \E NC \in {IF twin THEN Pick(2..3) ELSE IF heap THEN Pick(MaxCons..2 * MaxCons + 2) ELSE Pick(1..MaxCons)} : \E stand \in {Pick(1..4) = 1 /\ ~twin} :
    \E at \in {Pick(0..S)} : \E upto \in {Pick(at..S)} :
    \E few \in {IF twin THEN {Pick({"linvel", "linacc", "angvel", "pointat"})} ELSE Moving} :
    \E kinds0 \in {TLCEval([k \in 1..NC |-> Pick(IF stand THEN Standing ELSE few)])} :
    \* constraints like an earlier one, over the same range
    \E like \in {TLCEval([k \in 1..NC |-> IF k > 1 /\ (twin \/ Pick(1..3) = 1) THEN Pick(1..(k - 1)) ELSE k])} :
    \E kinds \in {[k \in 1..NC |-> kinds0[like[k]]]} :
    \E a0 \in {TLCEval([k \in 1..NC |-> IF heap /\ Pick(1..8) > 1 THEN at ELSE Pick(0..S)])} :
    \E b0 \in {TLCEval([k \in 1..NC |-> IF heap /\ a0[k] <= upto /\ Pick(1..8) > 1 THEN upto ELSE IF Pick(1..4) = 1 THEN a0[k] ELSE Pick(a0[k]..S)])} :
    \E a \in {[k \in 1..NC |-> a0[like[k]]]} : \E bb \in {[k \in 1..NC |-> b0[like[k]]]} :
    \* in Rust there are obstacles over ranges only, and poses at waypoints only
    \E b \in {[k \in 1..NC |-> IF Lang # "rust" THEN bb[k] ELSE IF stand THEN a[k] ELSE bb[k]]} :
    \E At \in {TLCEval(Spots(Total(counts)))} :
    \E ks \in {[k \in 1..NC |-> IF Lang = "rust" /\ kinds[k] = "obs" /\ a[k] = b[k] THEN "linvel" ELSE kinds[k]]} :
       LET calls == <<IF Lang = "rust" THEN [op |-> "bumpers", sd |-> Margin, pts |-> Corners(2, 2)] ELSE [op |-> "bumpers", sd |-> 1, pts |-> << <<0, 0>> >>]>>
                    \o [k \in 1..NC |-> IF stand THEN StandCall(ks[k], a[k], b[k]) ELSE PCall(ks[k], k, a[k], b[k])]
           pre   == IF Pick({TRUE, FALSE}) THEN <<[op |-> "wpt_guess", i |-> S, p |-> <<0, 0, [deg |-> 0]>>]>> \o Away(S) \o calls
                    ELSE calls \o <<[op |-> "wpt_guess", i |-> S, p |-> <<0, 0, [deg |-> 0]>>]>> \o Away(S)
           trajs == IF stand THEN Blips(counts, At) ELSE Probes(counts, ks, At)
       IN EmitIn(Lang, Interleave(pre, [op |-> "counts", ns |-> counts])
                   \o <<Drive, [op |-> "new_gen", g |-> 0], [op |-> "probe", g |-> 0, trajs |-> trajs]>>)
Init == i = 0
Next == i < Behaviours /\ i' = i + 1 /\ Case(i)
Spec == Init /\ [][Next]_vars
===============================================================================
