--------------------------------- MODULE Robot ---------------------------------
(***************************************************************************)
(* The robot: motion (C08), dynamics and module limits (C09), time steps    *)
(* and objective (C10), exact on integers.                                  *)
(*                                                                          *)
(* A trajectory t is a record of arrays, sample n at index n+1:             *)
(*   x y vx vy ax ay  fx fy (per module)      in units of 1/ud              *)
(*   c s                                      in units of 1/uc              *)
(*   w al                                     in angle units per second(^2) *)
(*   dt per segment, seconds                                                *)
(* The angle unit phi is ang = <<p, q, r>>: cos phi = p/r, sin phi = q/r.    *)
(* With a trajectory that turns, the drivetrain has a field ang too: its     *)
(* module coordinates are in units of 1/phi and its moment of inertia in    *)
(* units of 1/phi^2, so that w * coordinate and moi * al / coordinate are   *)
(* integers again.                                                          *)
(***************************************************************************)
EXTENDS Problem

Field(t, f, d) == IF f \in DOMAIN t THEN t[f] ELSE d
UD(t)  == Field(t, "ud", 1)
UC(t)  == Field(t, "uc", 1)
Ang(t) == Field(t, "ang", <<1, 0, 1>>)

Mod(d, i) == <<d.mods[i].x, d.mods[i].y>>
NMods(d) == Len(d.mods)
Scaled(d) == "ang" \in DOMAIN d

\* ------------------------------------------------------------------ motion
RECURSIVE RotPow(_, _, _)
\* (p + iq)^k applied to the vector v, k >= 0 (multiplies the length by r^k)
RotPow(v, ang, k) == IF k = 0 THEN v
    ELSE RotPow(<<v[1] * ang[1] - v[2] * ang[2], v[1] * ang[2] + v[2] * ang[1]>>, ang, k - 1)
RECURSIVE Pow(_, _)
Pow(r, k) == IF k = 0 THEN 1 ELSE r * Pow(r, k - 1)

Heading(t, n) == <<t.c[n + 1], t.s[n + 1]>>
UnitHeading(t, n) == Norm2(Heading(t, n)) = Sq(UC(t))
\* heading n is heading n-1 turned by k angle units
Turned(t, n, k) ==
    LET a == Ang(t)  b == IF k >= 0 THEN a ELSE <<a[1], -a[2], a[3]>>  j == IF k >= 0 THEN k ELSE -k
    IN RotPow(Heading(t, n - 1), b, j) = Scale(Pow(a[3], j), Heading(t, n))
TurnedOpposite(t, n, k) ==
    LET a == Ang(t)  b == IF k >= 0 THEN a ELSE <<a[1], -a[2], a[3]>>  j == IF k >= 0 THEN k ELSE -k
    IN RotPow(Heading(t, n - 1), b, j) = Scale(-Pow(a[3], j), Heading(t, n))

Links(counts, t) == {<<n, t.dt[w]>> : w \in {}, n \in {}} \cup
    UNION {{<<n, t.dt[w]>> : n \in Owned(counts, w)} : w \in 1..Len(counts)}
PositionLinked(t, n, dt) == /\ t.x[n + 1] = t.x[n] + t.vx[n + 1] * dt
                            /\ t.y[n + 1] = t.y[n] + t.vy[n + 1] * dt
VelocityLinked(t, n, dt) == /\ t.vx[n + 1] = t.vx[n] + t.ax[n + 1] * dt
                            /\ t.vy[n + 1] = t.vy[n] + t.ay[n + 1] * dt
TurnRateLinked(t, n, dt) == t.w[n + 1] = t.w[n] + t.al[n + 1] * dt
HeadingLinked(t, n, dt)  == Turned(t, n, t.w[n + 1] * dt)

\* everything about the motion but the headings
MotionOK(counts, t) == \A k \in Links(counts, t) :
    PositionLinked(t, k[1], k[2]) /\ VelocityLinked(t, k[1], k[2]) /\ TurnRateLinked(t, k[1], k[2])
HeadingsOK(counts, t) == \A k \in Links(counts, t) : HeadingLinked(t, k[1], k[2])
HeadingsUnit(counts, t) == \A n \in 0..(Total(counts) - 1) : UnitHeading(t, n)
\* weaker: every heading is turned rightly up to a half turn
HeadingsHalfTurn(counts, t) == \A k \in Links(counts, t) :
    HeadingLinked(t, k[1], k[2]) \/ TurnedOpposite(t, k[1], t.w[k[1] + 1] * k[2])

\* ---------------------------------------------------------------- dynamics
RECURSIVE SumSeq(_, _)
SumSeq(v, k) == IF k = 0 THEN 0 ELSE v[k] + SumSeq(v, k - 1)
NetForceOK(d, t, n) ==
    /\ SumSeq(t.fx[n + 1], NMods(d)) = d.mass * t.ax[n + 1]
    /\ SumSeq(t.fy[n + 1], NMods(d)) = d.mass * t.ay[n + 1]
\* uc * ud * phi times the torque of module i about the robot's origin
Torque(d, t, n, i) ==
    LET m == Mod(d, i)  h == Heading(t, n)
        r == <<h[1] * m[1] - h[2] * m[2], h[2] * m[1] + h[1] * m[2]>>
    IN r[1] * t.fy[n + 1][i] - r[2] * t.fx[n + 1][i]
NetTorqueOK(d, t, n) ==
    SumSeq([i \in 1..NMods(d) |-> Torque(d, t, n, i)], NMods(d)) = d.moi * t.al[n + 1] * UC(t) * UD(t)

\* ------------------------------------------------------------------ limits
\* force: |F| <= torque / radius
ForceOK(d, t, n, i) ==
    LET m == d.mods[i] IN
    AtLeast(Sq(m.t) * Sq(UD(t)), Sq(m.r) * (Sq(t.fx[n + 1][i]) + Sq(t.fy[n + 1][i])))
\* ground speed of module i: uc * ud times (body velocity + turn rate x position)
Wheel(d, t, n, i) ==
    LET h == Heading(t, n)  m == Mod(d, i)  k == UC(t) * UD(t) * t.w[n + 1] IN
    <<h[1] * t.vx[n + 1] + h[2] * t.vy[n + 1] - m[2] * k,
      h[1] * t.vy[n + 1] - h[2] * t.vx[n + 1] + m[1] * k>>
SpeedOK(d, t, n, i) ==
    LET m == d.mods[i]  R == m.r * m.w  u == UC(t) * UD(t)  v == Wheel(d, t, n, i) IN
    \* (a component that is too large by itself is not squared: 32-bit numbers)
    IF CAbs(v[1]) > R * u \/ CAbs(v[2]) > R * u THEN 0 ELSE AtLeast(Sq(R * u), Norm2(v))

\* ------------------------------------------------------------- time steps
\* nonzero module spacings along x or y over all pairs
Spacings(d) == {CAbs(Mod(d, i)[k] - Mod(d, j)[k]) : i, j \in 1..NMods(d), k \in {1, 2}} \ {0}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
StepOK(d, t, dt) ==
    All({Is(dt >= 0)} \cup
        (IF Spacings(d) = {} THEN {} ELSE
         {LET R == dt * d.mods[i].r * d.mods[i].w  W == MinOf(Spacings(d)) IN
          IF ~Scaled(d) THEN Is(R <= W)
          ELSE IF R * (PhiMilli(Ang(t)) + 1) <= 1000 * W THEN 1
          ELSE IF R * PhiMilli(Ang(t)) > 1000 * W THEN 0 ELSE 2 : i \in 1..NMods(d)}))
RECURSIVE Duration(_, _, _)
Duration(counts, dt, k) == IF k = 0 THEN 0 ELSE counts[k] * dt[k] + Duration(counts, dt, k - 1)

\* ---------------------------------------------------------------- together
Samples(counts) == 0..(Total(counts) - 1)
Physical(d, counts, t) ==
    All({Is(MotionOK(counts, t))}
        \cup {Is(NetForceOK(d, t, n) /\ NetTorqueOK(d, t, n)) : n \in Samples(counts)}
        \cup {ForceOK(d, t, n, i) : n \in Samples(counts), i \in 1..NMods(d)}
        \cup {SpeedOK(d, t, n, i) : n \in Samples(counts), i \in 1..NMods(d)}
        \cup {StepOK(d, t, t.dt[w]) : w \in 1..Len(counts)})
Headings(counts, t) == Is(HeadingsOK(counts, t) /\ HeadingsUnit(counts, t))
\* what the problem built from b has to answer about t
Feasible(b, t) == All({Physical(b.drive, b.counts, t), Headings(b.counts, t), Admits(b, t)})
===============================================================================
