-------------------------------- MODULE Gen_Rust --------------------------------
(* Histories of the Rust interface: calls of every kind with different values in   *)
(* every role, questions, generations with callbacks, cancellations and all        *)
(* endings (C18).                                                                  *)
EXTENDS GenLang
CONSTANTS Ops
VARIABLES w, hist, n, stop, done
vars == <<w, hist, n, stop, done>>

DegR(z) == [deg |-> 15 * Pick(-12..12)]
Pt(base) == base + Pick(0..99)
RMods(m) == [k \in 1..m |-> [x |-> Pick({-1, 1}) * Pt(100), y |-> Pick({-1, 1}) * Pt(200), wheel_radius |-> Pt(300), wheel_max_angular_velocity |-> Pt(400),
                             wheel_max_torque |-> Pt(500)]]
Drive(z) == Call("set_drivetrain", [mass |-> Pt(600), moi |-> Pt(700), modules |-> RMods(Pick(0..4))])
Idle(b) == \A g \in DOMAIN w.g : Solving(w.g[g]) => g # b   \* generation b runs on builder b
Segs(b) == IF Len(w.b[b].wpts) = 0 THEN 0 ELSE Len(w.b[b].wpts) - 1
Counts(b) == Call("set_control_interval_counts", [counts |-> [k \in 1..Segs(b) |-> Pick(1..4)]])
W(z) == Pick(0..2)
From(z) == Pick({<<0, 1>>, <<1, 2>>, <<0, 2>>})
Lim(l) == CASE l = "linear_velocity_direction" -> [angle |-> DegR(0)]
    [] l \in {"linear_velocity_max_magnitude", "linear_acceleration_max_magnitude"} -> [magnitude |-> Pick(1..9)]
    [] l = "angular_velocity_max_magnitude" -> [angular_velocity |-> Pick(1..9)]
    [] l = "point_at" -> [field_point_x |-> Pt(100), field_point_y |-> Pt(200), heading_tolerance |-> [deg |-> 45]]
BuildCmd(b) ==
    LET k == PickFrom(<<1, 2, 3, 4, 5, 5, 5, 6, 6, 6, 7, 8, 9, 10, 11>>)  s == From(0) IN
    CASE k = 1 -> Call("pose_wpt", [index |-> W(0), x |-> Pt(100), y |-> Pt(200), heading |-> DegR(0)])
      [] k = 2 -> Call("translation_wpt", [index |-> W(0), x |-> Pt(100), y |-> Pt(200), heading_guess |-> DegR(0)])
      [] k = 3 -> Call("empty_wpt", [index |-> W(0), x_guess |-> Pt(100), y_guess |-> Pt(200), heading_guess |-> DegR(0)])
      [] k = 4 -> Call("sgmt_initial_guess_points", [from_index |-> Pick(0..1), guess_points |-> [q \in 1..Pick(0..3) |-> <<Pt(100), Pt(200), DegR(0)>>]])
      [] k = 5 -> LET l == Pick(Limits) IN Call(WptName(l), Join([index |-> W(0)], Lim(l)))
      [] k = 6 -> LET l == Pick(Limits) IN Call(SegName(l), Join([from_index |-> s[1], to_index |-> s[2]], Lim(l)))
      [] k = 7 -> Call("set_bumpers", [length |-> 2 * Pick(1..9), width |-> 2 * Pick(11..19)])
      [] k = 8 -> IF w.b[b].bump = <<>> THEN Call("set_bumpers", [length |-> 2, width |-> 4])
                  ELSE Call("sgmt_circle_obstacle", [from_index |-> s[1], to_index |-> s[2], x |-> Pt(100), y |-> Pt(200), radius |-> Pick(1..9)])
      [] k = 9 -> LET p == Pick(0..3)  q == Pick({p, p + 1}) IN
                  IF w.b[b].bump = <<>> \/ p = 0 THEN Call("sgmt_polygon_obstacle", [from_index |-> s[1], to_index |-> s[2], x |-> <<1, 2>>, y |-> <<3>>, radius |-> 4])
                  ELSE Call("sgmt_polygon_obstacle", [from_index |-> s[1], to_index |-> s[2], x |-> [z \in 1..p |-> Pt(100)], y |-> [z \in 1..q |-> Pt(200)], radius |-> Pick(1..9)])
      [] k = 10 -> Drive(0)
      [] k = 11 -> Counts(b)
At(b, c) == Join([b |-> b], c)
Queries(b) == <<[op |-> "q_counts", b |-> b], [op |-> "q_drive", b |-> b], [op |-> "q_cbs", b |-> b]>>
              \o (IF Complete(w.b[b]) THEN <<[op |-> "q_guess", b |-> b]>> ELSE <<>>)
\* any solution; its headings have any length but 0
Arrow(z) == PickFrom(<<<<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -1>>, <<Pick(1..999), Pick(-999..999)>>, <<-Pick(1..999), Pick(-999..999)>>>>)
Traj(b) ==
    LET T == Total(b.counts)  M == NMods(b.drive)  \* (more digits than single precision holds)
        Fine(base) == Pick({-1, 1}) * (100000 * Pt(base) + Pick(0..99999))
        A(base) == [k \in 1..T |-> Fine(base)]
        F(base) == [k \in 1..T |-> [j \in 1..M |-> Fine(base + 100 * j)]]  h == TLCEval([k \in 1..T |-> Arrow(k)]) IN
    TLCEval([x |-> A(1000), y |-> A(1100), c |-> [k \in 1..T |-> h[k][1]], s |-> [k \in 1..T |-> h[k][2]], vx |-> A(1200), vy |-> A(1300),
             w |-> A(1400), ax |-> A(1500), ay |-> A(1600), al |-> A(1700), fx |-> F(2000), fy |-> F(3000),
             dt |-> [k \in 1..Len(b.counts) |-> PickFrom(<<Pick(0..99), Pick(0..9999999), Pick(0..9999999), Pick(-9999999..-1)>>)]])
Kinds == <<"build", "build", "build", "build", "build", "cb", "query", "run", "run", "iter", "iter", "iter", "iter", "adv", "adv", "finish", "finish", "cancel", "drop">>
Codes == <<-7, -6, -5, -4, -3, -2, -1, 0, 0, 0, 0, 0, 1, 1, 1, 2>>
Running == {g \in 0..1 : Solving(w.g[g])}
Nop == <<[op |-> "adv", d |-> 1]>>
Cmds(kind, b) ==
    CASE kind = "build" -> IF Idle(b) THEN <<At(b, BuildCmd(b))>> ELSE Nop
      [] kind = "cb" -> IF Idle(b) THEN <<At(b, Call("add_progress_callback", [callback |-> Pick(0..3)]))>> ELSE Nop
      [] kind = "query" -> IF Idle(b) THEN Queries(b) ELSE Nop
      [] kind = "drop" -> IF Idle(b) /\ Pick(1..3) = 1 THEN <<[op |-> "drop", b |-> b], [op |-> "q_counts", b |-> b], [op |-> "q_drive", b |-> b], [op |-> "q_cbs", b |-> b]>> ELSE Nop
      [] kind = "run" -> IF ~Idle(b) \/ (\E g \in Running : w.g[g].canc) THEN Nop
                         ELSE IF ~Complete(w.b[b]) \/ (\E k \in 1..Len(w.b[b].counts) : w.b[b].counts[k] > 4)
                         THEN <<At(b, Call("empty_wpt", [index |-> 2, x_guess |-> Pt(100), y_guess |-> Pt(200), heading_guess |-> DegR(0)])),
                                At(b, Call("set_control_interval_counts", [counts |-> [k \in 1..2 |-> Pick(1..4)]]))>>
                         ELSE <<[op |-> "new_gen", g |-> b, b |-> b, handle |-> Pick(0..11)], [op |-> "start", g |-> b, diag |-> Pick({TRUE, FALSE})]>>
      [] kind = "iter" -> IF b \in Running \ stop THEN <<[op |-> "iter", g |-> b, traj |-> Traj(w.g[b].b)]>> ELSE Nop
      [] kind = "adv" -> <<[op |-> "adv", d |-> Pick({1, 84, 166, 167, 168, 250, 1000})]>>
      [] kind = "cancel" -> LET k == PickFrom(<<1, 1, 1, 2, 3>>) IN [q \in 1..k |-> [op |-> "cancel"]]
      [] kind = "finish" -> IF b \in Running THEN <<[op |-> "finish", g |-> b, code |-> IF b \in stop THEN 2 ELSE PickFrom(Codes), traj |-> Traj(w.g[b].b)]>> ELSE Nop
\* what there is something to do it to
Can(kind, b) ==
    CASE kind \in {"build", "cb", "query", "drop"} -> Idle(b)
      [] kind = "run" -> Idle(b) /\ ~\E g \in Running : w.g[g].canc
      [] kind = "iter" -> b \in Running \ stop
      [] kind = "finish" -> b \in Running
      [] OTHER -> TRUE
Kind(b) == PickFrom(SelectSeq(Kinds, LAMBDA k : Can(k, b)))
RECURSIVE After(_, _)
After(ww, cs) == IF cs = <<>> THEN ww ELSE After(RustStep(ww, IF cs[1].op = "iter" THEN Join(cs[1], [tag |-> 0]) ELSE cs[1], FALSE), Tail(cs))
Init == w = World0 /\ hist = <<>> /\ n = 0 /\ stop = {} /\ done = FALSE
Op == /\ n < Ops
      /\ \E b \in {PickFrom(<<0, 0, 1>>)} : \E kind \in {Kind(b)} : \E cs \in {TLCEval(Cmds(kind, b))} :
           /\ w' = After(w, cs)
           /\ hist' = hist \o cs
           /\ stop' = (stop \cup {c \in 0..1 : \E k \in 1..Len(cs) : cs[k].op = "iter" /\ cs[k].g = c /\ w.g[c].canc})
                      \ {c \in 0..1 : \E k \in 1..Len(cs) : cs[k].op = "finish" /\ cs[k].g = c}
      /\ n' = n + 1 /\ UNCHANGED done
Fin == n = Ops /\ ~done /\ done' = TRUE /\ EmitCmds(hist \o Queries(0) \o Queries(1)) /\ UNCHANGED <<w, hist, n, stop>>
Next == Op \/ Fin
Spec == Init /\ [][Next]_vars
===============================================================================
