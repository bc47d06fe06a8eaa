-------------------------------- MODULE Gen_Cons --------------------------------
(* One constraint on one sample, and many robot states around its boundary (C04).  *)
EXTENDS GenLang
CONSTANTS Behaviours, States, Lang
VARIABLES i
vars == <<i>>

Drive == [op |-> "drive", mass |-> 2, moi |-> 0,
          mods |-> << [x |-> 10, y |-> 0, r |-> 1, w |-> 100, t |-> 100], [x |-> -10, y |-> 0, r |-> 1, w |-> 100, t |-> 100] >>]

Units == {1, 5, 13}
HeadingsOf(u) == CASE u = 1 -> <<(<<1, 0>>), (<<0, 1>>), (<<-1, 0>>), (<<0, -1>>)>>
    [] u = 5 -> <<(<<3, 4>>), (<<4, 3>>), (<<-3, 4>>), (<<-4, 3>>), (<<3, -4>>), (<<4, -3>>), (<<-3, -4>>), (<<-4, -3>>), (<<5, 0>>), (<<0, -5>>)>>
    [] u = 13 -> <<(<<5, 12>>), (<<12, 5>>), (<<-5, 12>>), (<<-12, 5>>), (<<5, -12>>), (<<12, -5>>), (<<-5, -12>>), (<<-12, -5>>), (<<-13, 0>>), (<<0, 13>>)>>
\* coordinates small enough for exact 32-bit arithmetic
Lim(u) == CASE u = 1 -> 12 [] u = 5 -> 8 [] u = 13 -> 4
C(L) == Pick((-L)..L)
\* a point, every other time on one of the axes
P(L) == CASE Pick(1..6) = 1 -> <<0, C(L)>> [] Pick(1..6) = 1 -> <<C(L), 0>> [] Pick(1..12) = 1 -> <<0, 0>> [] OTHER -> <<C(L), C(L)>>
\* directions given as angles
Angles == <<[deg |-> 0], [deg |-> 90], [deg |-> 180], [deg |-> 270], [deg |-> -90], [deg |-> -180], [deg |-> 360], [deg |-> 450],
            [cs |-> <<3, 4>>], [cs |-> <<-4, 3>>], [cs |-> <<5, -12>>], [cs |-> <<-12, -5>>], [cs |-> <<1, 1>>], [cs |-> <<-1, 2>>]>>
\* headings of a pose: unit-able vectors only
PoseAngles(u) == <<[deg |-> 0], [deg |-> 90], [deg |-> 180], [deg |-> 270], [deg |-> -90], [deg |-> -180], [deg |-> 360], [deg |-> 450]>>
                 \o (IF u = 1 THEN <<>> ELSE [k \in 1..Len(HeadingsOf(u)) |-> [cs |-> HeadingsOf(u)[k]]])
Mags == <<0, 1, 2, 5, 5, 10, 13>>
Tols == <<0, 30, 45, 60, 90, 90, 120, 135, 150, 180, 200, 270, 360>>
Vec(m) == Pick({<<m, 0>>, <<-m, 0>>, <<0, m>>, <<0, -m>>} \cup
               (IF m % 5 = 0 THEN {<<3 * (m \div 5), 4 * (m \div 5)>>, <<-4 * (m \div 5), 3 * (m \div 5)>>, <<4 * (m \div 5), -3 * (m \div 5)>>} ELSE {}) \cup
               (IF m % 13 = 0 THEN {<<5 * (m \div 13), -12 * (m \div 13)>>, <<-12 * (m \div 13), -5 * (m \div 13)>>} ELSE {}))
Off(z) == CASE Pick(1..3) = 1 -> <<0, 0>>
            [] OTHER -> Pick({<<1, 0>>, <<-1, 0>>, <<0, 1>>, <<0, -1>>, <<Pick(-3..3), Pick(-3..3)>>, <<Pick(-3..3), Pick(-3..3)>>,
                              <<1, -1>>, <<-2, 2>>, <<1, 1>>})
Add(p, q) == <<p[1] + q[1], p[2] + q[2]>>

Types == IF Lang = "rust" THEN <<"angvel", "linvel", "linacc", "veldir", "pointat", "pointat", "pose", "trans">>
         ELSE <<"angvel", "linvel", "linacc", "veldir", "pointat", "pointat", "pp", "lp", "lp", "pl", "pl", "pose", "trans">>
Con(t, u, p, q, r) ==
    CASE t = "angvel" -> [t |-> t, m |-> Pick(0..3)]
      [] t = "linvel" -> [t |-> t, m |-> PickFrom(Mags)]
      [] t = "linacc" -> [t |-> t, m |-> PickFrom(Mags)]
      [] t = "veldir" -> [t |-> t, a |-> PickFrom(Angles)]
      [] t = "pointat" -> [t |-> t, f |-> p, m |-> [deg |-> PickFrom(Tols)]]
      [] t = "pp" -> [t |-> t, r |-> p, f |-> q, m |-> Pick(0..6)]
      [] t = "lp" -> [t |-> t, r |-> p, r2 |-> q, f |-> r, m |-> Pick(0..4)]
      [] t = "pl" -> [t |-> t, r |-> r, f |-> p, f2 |-> q, m |-> Pick(0..4)]
      [] t = "pose" -> [t |-> t, x |-> p[1], y |-> p[2], h |-> PickFrom(PoseAngles(u))]
      [] t = "trans" -> [t |-> t, x |-> p[1], y |-> p[2]]
Rates(c) == LET m == c.m IN Pick({0, m, -m, m + 1, -m - 1, m - 1, 1 - m})
HeadingFor(c, u) ==
    IF c.t = "pose" /\ Pick(1..2) = 1
    THEN LET d == Dir(c.h) IN IF Norm2(d) = 1 THEN Scale(u, d) ELSE IF Pick(1..4) = 1 THEN Scale(-1, d) ELSE d
    ELSE PickFrom(HeadingsOf(u))
\* a point between two others
Between(p, q) == CHOOSE r \in {<<p[1] + ((q[1] - p[1]) * k) \div 4, p[2] + ((q[2] - p[2]) * k) \div 4>> : k \in {Pick(0..4)}} : TRUE
Bound(x, L) == IF x > L THEN L ELSE IF x < -L THEN -L ELSE x
\* where the robot has to be, turned to h, for its point p to come to about m from the field's point f
Toward(p, f, m, h, u, L) ==
    LET r == <<(h[1] * p[1] - h[2] * p[2]) \div u, (h[2] * p[1] + h[1] * p[2]) \div u>>
        d == Off(0)  v == Vec(IF m > 10 THEN 10 ELSE m)
    IN CHOOSE t \in {<<Bound(f[1] - r[1] + w[1] + e[1], L), Bound(f[2] - r[2] + w[2] + e[2], L)>> : w \in {v}, e \in {d}} : TRUE
PosFor(c, h, u, L) ==
    IF c.t = "pp" /\ Pick(1..4) > 1 THEN Toward(c.r, c.f, c.m, h, u, L)
    ELSE IF c.t = "lp" /\ Pick(1..4) > 1 THEN Toward(Between(c.r, c.r2), c.f, c.m, h, u, L)
    ELSE IF c.t = "pl" /\ Pick(1..4) > 1 THEN Toward(c.r, Between(c.f, c.f2), c.m, h, u, L) ELSE
    IF c.t \in {"pose", "trans"} THEN Add(<<c.x, c.y>>, Off(0))
    ELSE IF c.t = "pointat" THEN Add(c.f, Pick({<<a, b>> : a, b \in -6..6} \ {<<0, 0>>}))
    ELSE P(L)
VelFor(c) ==
    IF c.t = "linvel" THEN Add(Vec(c.m), Off(0))
    ELSE IF c.t = "veldir" THEN LET d == Dir(c.a) IN
         Add(Pick({Scale(k, d) : k \in {-2, -1, 0, 1, 2}} \cup {<<-d[2], d[1]>>, <<d[2], -d[1]>>}), Off(0))
    ELSE <<Pick(-15..15), Pick(-15..15)>>
AccFor(c) == IF c.t = "linacc" THEN Add(Vec(c.m), Off(0)) ELSE <<Pick(-15..15), Pick(-15..15)>>
Drawn(c, u, h) ==
    CHOOSE t \in {[x |-> <<pos[1]>>, y |-> <<pos[2]>>, c |-> <<h[1]>>, s |-> <<h[2]>>, vx |-> <<v[1]>>, vy |-> <<v[2]>>,
                   w |-> <<w>>, al |-> <<Pick(-9..9)>>, ax |-> <<a[1]>>, ay |-> <<a[2]>>,
                   fx |-> << <<a[1], a[1]>> >>, fy |-> << <<a[2], a[2]>> >>, dt |-> <<>>, uc |-> u]
                  : pos \in {PosFor(c, h, u, Lim(u))}, v \in {VelFor(c)}, a \in {AccFor(c)},
                    w \in {IF c.t = "angvel" THEN Rates(c) ELSE Pick(-4..4)}} : TRUE
State(c, u) == CHOOSE t \in {Drawn(c, u, h) : h \in {HeadingFor(c, u)}} : TRUE
Case(z) ==
    \E u \in {Pick(Units)} : \E t \in {PickFrom(Types)} : \E p \in {P(Lim(u))} : \E q \in {P(Lim(u))} : \E r \in {P(Lim(u))} :
    \E c \in {Con(t, u, p, IF t \in {"lp", "pl"} /\ Pick(1..8) = 1 THEN p ELSE q, r)} :
       EmitIn(Lang, Away(0) \o <<[op |-> "wpt_con", i |-> 0, c |-> c], [op |-> "counts", ns |-> <<>>], Drive, [op |-> "new_gen", g |-> 0],
                  [op |-> "probe", g |-> 0, trajs |-> [k \in 1..States |-> State(c, u)]]>>)
Init == i = 0
Next == i < Behaviours /\ i' = i + 1 /\ Case(i)
Spec == Init /\ [][Next]_vars
===============================================================================
