-------------------------------- MODULE RustApi --------------------------------
(***************************************************************************)
(* What each call of the Rust interface means, in terms of the C++ one      *)
(* (C18).  Lengths are in hundredths of a metre, so that the margin of the  *)
(* bumpers is 1.  A call is [op |-> "rs", f |-> name, its arguments].        *)
(***************************************************************************)
EXTENDS World, Convert

Margin == 1
Corners(length, width) == LET a == length \div 2  b == width \div 2 IN << <<a, b>>, <<-a, b>>, <<-a, -b>>, <<a, -b>> >>
Zip(x, y) == [k \in 1..Len(x) |-> <<x[k], y[k]>>]

Module(m) == [x |-> m.x, y |-> m.y, r |-> m.wheel_radius, w |-> m.wheel_max_angular_velocity, t |-> m.wheel_max_torque]
Limit(f, c) ==
    CASE f = "linear_velocity_direction" -> [t |-> "veldir", a |-> c.angle]
      [] f = "linear_velocity_max_magnitude" -> [t |-> "linvel", m |-> c.magnitude]
      [] f = "angular_velocity_max_magnitude" -> [t |-> "angvel", m |-> c.angular_velocity]
      [] f = "linear_acceleration_max_magnitude" -> [t |-> "linacc", m |-> c.magnitude]
      [] f = "point_at" -> [t |-> "pointat", f |-> <<c.field_point_x, c.field_point_y>>, m |-> c.heading_tolerance]
Limits == {"linear_velocity_direction", "linear_velocity_max_magnitude", "angular_velocity_max_magnitude",
           "linear_acceleration_max_magnitude", "point_at"}
WptName(f) == "wpt_" \o f
SegName(f) == "sgmt_" \o f

\* the C++ calls that a Rust call stands for
Meaning(c) ==
    CASE c.f = "set_drivetrain" ->
           LET d == [op |-> "drive", mass |-> c.mass, moi |-> c.moi, mods |-> [k \in 1..Len(c.modules) |-> Module(c.modules[k])]]
           IN <<IF "ang" \in DOMAIN c THEN [f \in DOMAIN d \cup {"ang"} |-> IF f = "ang" THEN c.ang ELSE d[f]] ELSE d>>
      [] c.f = "set_bumpers" -> <<[op |-> "bumpers", sd |-> Margin, pts |-> Corners(c.length, c.width)]>>
      [] c.f = "set_control_interval_counts" -> <<[op |-> "counts", ns |-> c.counts]>>
      [] c.f = "pose_wpt" -> <<[op |-> "pose_wpt", i |-> c.index, x |-> c.x, y |-> c.y, h |-> c.heading]>>
      [] c.f = "translation_wpt" -> <<[op |-> "trans_wpt", i |-> c.index, x |-> c.x, y |-> c.y, h |-> c.heading_guess]>>
      [] c.f = "empty_wpt" -> <<[op |-> "wpt_guess", i |-> c.index, p |-> <<c.x_guess, c.y_guess, c.heading_guess>>]>>
      [] c.f = "sgmt_initial_guess_points" -> <<[op |-> "seg_guess", i |-> c.from_index, pts |-> c.guess_points]>>
      [] c.f \in {WptName(l) : l \in Limits} ->
           <<[op |-> "wpt_con", i |-> c.index, c |-> Limit(CHOOSE l \in Limits : c.f = WptName(l), c)]>>
      [] c.f \in {SegName(l) : l \in Limits} ->
           <<[op |-> "seg_con", i |-> c.from_index, j |-> c.to_index, c |-> Limit(CHOOSE l \in Limits : c.f = SegName(l), c)]>>
      [] c.f = "sgmt_circle_obstacle" ->
           <<[op |-> "seg_obs", i |-> c.from_index, j |-> c.to_index, sd |-> c.radius, pts |-> << <<c.x, c.y>> >>]>>
      [] c.f = "sgmt_polygon_obstacle" ->
           IF Len(c.x) # Len(c.y) THEN <<>>
           ELSE <<[op |-> "seg_obs", i |-> c.from_index, j |-> c.to_index, sd |-> c.radius, pts |-> Zip(c.x, c.y)]>>
      [] c.f = "add_progress_callback" -> <<[op |-> "cb", id |-> c.callback]>>

RECURSIVE DoAll(_, _)
DoAll(b, cs) == IF cs = <<>> THEN b ELSE DoAll(Do(b, cs[1]), Tail(cs))
RustStep(w, c, delivered) ==
    IF c.op = "rs" THEN [w EXCEPT !.b[B(c)] = DoAll(@, Meaning(c))]
    ELSE IF c.op = "drop" THEN [w EXCEPT !.b[B(c)] = EmptyBuilder]
    ELSE Step(w, c, delivered)

\* ---------------------------------------------------------------- for generators
\* a Rust call with the meaning of a C++ call, where there is one
RsCall(f) == [op |-> "rs", f |-> f]
RLimit(c) ==
    CASE c.t = "veldir"  -> [angle |-> c.a]
      [] c.t \in {"linvel", "linacc"} -> [magnitude |-> c.m]
      [] c.t = "angvel"  -> [angular_velocity |-> c.m]
      [] c.t = "pointat" -> [field_point_x |-> c.f[1], field_point_y |-> c.f[2], heading_tolerance |-> c.m]
LimitOf(t) == CASE t = "veldir" -> "linear_velocity_direction" [] t = "linvel" -> "linear_velocity_max_magnitude"
    [] t = "angvel" -> "angular_velocity_max_magnitude" [] t = "linacc" -> "linear_acceleration_max_magnitude" [] t = "pointat" -> "point_at"
Join(p, q) == [f \in DOMAIN p \cup DOMAIN q |-> IF f \in DOMAIN p THEN p[f] ELSE q[f]]
Call(f, args) == Join(RsCall(f), args)
RModule(m) == [x |-> m.x, y |-> m.y, wheel_radius |-> m.r, wheel_max_angular_velocity |-> m.w, wheel_max_torque |-> m.t]
ToRust(c) ==
    CASE c.op = "drive" ->
           LET d == Call("set_drivetrain", [mass |-> c.mass, moi |-> c.moi, modules |-> [k \in 1..Len(c.mods) |-> RModule(c.mods[k])]])
           IN IF "ang" \in DOMAIN c THEN Join([ang |-> c.ang], d) ELSE d
      [] c.op = "bumpers" -> Call("set_bumpers", [length |-> 2 * c.pts[1][1], width |-> 2 * c.pts[1][2]])
      [] c.op = "counts" -> Call("set_control_interval_counts", [counts |-> c.ns])
      [] c.op = "pose_wpt" -> Call("pose_wpt", [index |-> c.i, x |-> c.x, y |-> c.y, heading |-> c.h])
      [] c.op = "trans_wpt" -> Call("translation_wpt", [index |-> c.i, x |-> c.x, y |-> c.y,
                                    heading_guess |-> IF "h" \in DOMAIN c THEN c.h ELSE [deg |-> 0]])
      [] c.op = "wpt_guess" -> Call("empty_wpt", [index |-> c.i, x_guess |-> c.p[1], y_guess |-> c.p[2], heading_guess |-> c.p[3]])
      [] c.op = "seg_guess" -> Call("sgmt_initial_guess_points", [from_index |-> c.i, guess_points |-> c.pts])
      [] c.op = "wpt_con" ->
           CASE c.c.t = "pose" -> Call("pose_wpt", [index |-> c.i, x |-> c.c.x, y |-> c.c.y, heading |-> c.c.h])
             [] c.c.t = "trans" -> Call("translation_wpt", [index |-> c.i, x |-> c.c.x, y |-> c.c.y, heading_guess |-> [deg |-> 75]])
             [] OTHER -> Call(WptName(LimitOf(c.c.t)), Join([index |-> c.i], RLimit(c.c)))
      [] c.op = "seg_con" -> Call(SegName(LimitOf(c.c.t)), Join([from_index |-> c.i, to_index |-> c.j], RLimit(c.c)))
      [] c.op = "seg_obs" ->
           IF Len(c.pts) = 1 /\ c.i % 2 = 0
           THEN Call("sgmt_circle_obstacle", [from_index |-> c.i, to_index |-> c.j, x |-> c.pts[1][1], y |-> c.pts[1][2], radius |-> c.sd])
           ELSE Call("sgmt_polygon_obstacle", [from_index |-> c.i, to_index |-> c.j, x |-> [k \in 1..Len(c.pts) |-> c.pts[k][1]],
                     y |-> [k \in 1..Len(c.pts) |-> c.pts[k][2]], radius |-> c.sd])
      [] OTHER -> c
Translated(cs) == [k \in 1..Len(cs) |-> IF "b" \in DOMAIN cs[k] /\ cs[k].op \in BuilderOps THEN Join([b |-> cs[k].b], ToRust(cs[k])) ELSE ToRust(cs[k])]
\* the translation says the same
Faithful(c) == LET d == ToRust(c) IN d.op = "rs" => LET m == Meaning(d) IN
    /\ Len(m) = 1
    /\ \/ m[1] = c
       \/ c.op = "wpt_con" /\ c.c.t = "pose" /\ m[1].op = "pose_wpt"
       \/ c.op \in {"wpt_con", "trans_wpt"} /\ m[1].op = "trans_wpt"
===============================================================================
