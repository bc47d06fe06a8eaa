-------------------------------- MODULE Gen_Guess --------------------------------
(* Guess histories (C06): waypoint and segment guess points in any order, counts    *)
(* given before, between or after, few or many guess points per interval; with      *)
(* Start, also what the solver starts from (C20).                                   *)
EXTENDS GenLang
CONSTANTS Behaviours, MaxSeg, MaxN, Lim, Start, Lang
VARIABLES i
vars == <<i>>
DegR(z) == [deg |-> Pick({15 * Pick(-24..24), 15 * Pick(-24..24), 180 * Pick(-3..3), 180 * Pick(-5..5) + Pick(-1..1), Pick(-1000..1000), 360 * Pick(-20..20) + Pick(-180..180)})]
\* headings that come back: H are this behaviour's own
GHead(H) == IF Pick(1..3) = 1 THEN DegR(0) ELSE PickFrom(H)
GPose(L, H) == <<Pick((-L)..L), Pick((-L)..L), GHead(H)>>
Poses(m, L, H) == [k \in 1..m |-> GPose(L, H)]
GCall(S, L, H) ==
    LET kind == Pick(1..(IF S = 0 THEN 3 ELSE 5)) IN
    CASE kind = 1 -> [op |-> "wpt_guess", i |-> Pick(0..S), p |-> GPose(L, H)]
      [] kind = 2 -> [op |-> "pose_wpt", i |-> Pick(0..S), x |-> Pick((-L)..L), y |-> Pick((-L)..L), h |-> GHead(H)]
      [] kind = 3 -> IF Pick(1..2) = 1 THEN [op |-> "trans_wpt", i |-> Pick(0..S), x |-> Pick((-L)..L), y |-> Pick((-L)..L)]
                     ELSE [op |-> "trans_wpt", i |-> Pick(0..S), x |-> Pick((-L)..L), y |-> Pick((-L)..L), h |-> GHead(H)]
      [] kind > 3  -> [op |-> "seg_guess", i |-> Pick(0..(S - 1)), pts |-> Poses(Pick({0, 1, 2, 3, 4, IF Pick(1..3) = 1 THEN Pick(5..40) ELSE 1}), L, H)]
RECURSIVE Calls(_, _, _, _)
Calls(n, S, L, H) == IF n = 0 THEN <<>> ELSE <<GCall(S, L, H)>> \o Calls(n - 1, S, L, H)
Counts(S) == LET style == Pick(1..3) IN
    [k \in 1..S |-> CASE style = 1 -> Pick(1..MaxN) [] style = 2 -> Pick(1..5) [] style = 3 -> Pick({1, 2, 3, 6, 12, MaxN})]
\* what the robot can do and what is asked of it makes no difference to where the solver starts
Mods(n) == [k \in 1..n |-> [x |-> Pick(-2..2), y |-> Pick(-2..2), r |-> 1, w |-> Pick({1, 2, 5, 70, 2000}), t |-> Pick({1, 2, 50})]]
Ask(S) ==
    LET a == Pick(0..S)  b == Pick(a..S)
        c == PickFrom(<<[t |-> "linvel", m |-> Pick(0..2)], [t |-> "linacc", m |-> Pick(0..2)], [t |-> "angvel", m |-> Pick(0..1)],
                        [t |-> "veldir", a |-> [deg |-> 90 * Pick(0..3)]], [t |-> "pointat", f |-> <<1, 1>>, m |-> [deg |-> 10]]>>) IN
    IF Pick(1..4) = 1 THEN [op |-> "wpt_obs", i |-> a, sd |-> 1, pts |-> << <<Pick(-3..3), Pick(-3..3)>> >>]
    ELSE IF a = b THEN [op |-> "wpt_con", i |-> a, c |-> c] ELSE [op |-> "seg_con", i |-> a, j |-> b, c |-> c]
Corner3 == [op |-> "bumpers", sd |-> 1, pts |-> << <<1, 1>>, <<-1, 1>>, <<0, -1>> >>]
Solve(S) == (IF Pick(1..2) = 1 THEN <<>> ELSE <<Corner3>> \o TLCEval([k \in 1..Pick(1..3) |-> Ask(S)]))
            \o <<[op |-> "drive", mass |-> Pick({1, 45}), moi |-> Pick({0, 6}), mods |-> TLCEval(Mods(Pick({0, 1, 2, 4})))], [op |-> "new_gen", g |-> 0],
              \* what happens to the builder afterwards does not matter
              [op |-> "wpt_guess", i |-> S, p |-> <<1, 2, [deg |-> 30]>>], [op |-> "q_start", g |-> 0]>>
Q == <<[op |-> "q_guess"]>>
Case(z) ==
    \E big \in {Pick(1..10) = 1} : \E S \in {IF big THEN Pick(MaxSeg..4 * MaxSeg) ELSE Pick(0..MaxSeg)} : \E n \in {Pick(0..8)} : \E m \in {Pick(0..4)} :
    \E H \in {TLCEval([k \in 1..Pick(1..3) |-> DegR(k)])} :
    \E far \in {~Start /\ Pick(1..10) = 1} : \E L \in {IF far THEN 5 ELSE PickFrom(<<Lim, Lim, 1>>)} : \E cnt \in {[op |-> "counts", ns |-> Counts(S)]} : \E long \in {[op |-> "counts", ns |-> LET c == Counts(S) IN IF S = 0 \/ ~far THEN c ELSE [c EXCEPT ![Pick(1..S)] = Pick(100..400)]]} :
       EmitIn(Lang, (IF Pick(1..2) = 1 THEN <<cnt>> ELSE <<>>)
                \o <<[op |-> "wpt_guess", i |-> S, p |-> GPose(L, H)]>> \o Calls(n, S, L, H)
                \o (IF Pick(1..3) = 1 THEN Q ELSE <<>>)
                \o (IF Pick(1..2) = 1 THEN <<long>> ELSE <<>>) \o Calls(m, S, L, H) \o Q \o (IF Start THEN Solve(S) ELSE <<>>))
\* many small steps
Slow(z) ==
    \E S \in {Pick(1..2)} :
       EmitIn(Lang, <<[op |-> "wpt_guess", i |-> S, p |-> GPose(Lim, <<DegR(0)>>)], [op |-> "wpt_guess", i |-> 0, p |-> GPose(Lim, <<DegR(0)>>)],
                 [op |-> "counts", ns |-> [k \in 1..S |-> Pick(100..400)]],
                 [op |-> "seg_guess", i |-> Pick(0..(S - 1)), pts |-> Poses(Pick(0..3), Lim, <<DegR(0)>>)]>> \o Q \o Solve(S))
Init == i = 0
Next == i < Behaviours /\ i' = i + 1 /\ IF Start /\ i % 15 = 0 THEN Slow(i) ELSE Case(i)
Spec == Init /\ [][Next]_vars
===============================================================================
