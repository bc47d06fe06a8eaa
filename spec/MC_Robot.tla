-------------------------------- MODULE MC_Robot --------------------------------
(* The robot as a transition system: in every step each module pushes, the robot   *)
(* accelerates, turns and moves.  Every behaviour is one that Robot calls physical,  *)
(* obeys Newton's laws in total, leaves no entry free, and does not depend on where  *)
(* the field's axes point or in which order the modules are listed.                *)
EXTENDS Traj
CONSTANTS Steps, MaxV, MaxDt, MaxF
VARIABLES t, counts
vars == <<t, counts>>

D == [mass |-> 1, moi |-> 1, ang |-> <<0, 1, 1>>,
      mods |-> << [x |-> 1, y |-> 0, r |-> 1, w |-> 3, t |-> 2], [x |-> -1, y |-> 2, r |-> 1, w |-> 4, t |-> 2] >>]
M == NMods(D)
Forces == (-MaxF)..MaxF
FF == [1..M -> Forces \X Forces]
Push(n, F) == [i \in 1..M |-> F[i][n]]
\* limits aside
Newton(x, n) == NetForceOK(D, x, n) /\ NetTorqueOK(D, x, n)
Grow(x, dt, al, F) ==
    LET n == Len(x.x)  a == <<SumSeq(Push(1, F), M), SumSeq(Push(2, F), M)>>
        v == <<x.vx[n] + a[1] * dt, x.vy[n] + a[2] * dt>>  w == x.w[n] + al * dt
        h == TurnBy(<<x.c[n], x.s[n]>>, <<0, 1, 1>>, w * dt)
    IN [x |-> Append(x.x, x.x[n] + v[1] * dt), y |-> Append(x.y, x.y[n] + v[2] * dt),
        vx |-> Append(x.vx, v[1]), vy |-> Append(x.vy, v[2]), w |-> Append(x.w, w),
        ax |-> Append(x.ax, a[1]), ay |-> Append(x.ay, a[2]), al |-> Append(x.al, al),
        c |-> Append(x.c, h[1]), s |-> Append(x.s, h[2]), fx |-> Append(x.fx, Push(1, F)), fy |-> Append(x.fy, Push(2, F)),
        dt |-> Append(x.dt, dt), uc |-> 1, ud |-> 1, ang |-> <<0, 1, 1>>]
Still == [i \in 1..M |-> 0]
Init == /\ counts = <<>>
        /\ \E h \in {<<1, 0>>, <<0, 1>>}, v \in {<<0, 0>>, <<1, 0>>}, w \in {0, 1} :
           t = [x |-> <<0>>, y |-> <<0>>, vx |-> <<v[1]>>, vy |-> <<v[2]>>, w |-> <<w>>, ax |-> <<0>>, ay |-> <<0>>, al |-> <<0>>,
                c |-> <<h[1]>>, s |-> <<h[2]>>, fx |-> <<Still>>, fy |-> <<Still>>, dt |-> <<>>, uc |-> 1, ud |-> 1, ang |-> <<0, 1, 1>>]
Next == /\ Len(counts) < Steps
        /\ \E dt \in 1..MaxDt, al \in -1..1, F \in FF :
           LET x == Grow(t, dt, al, F)  n == Len(t.x) IN
           /\ CAbs(x.vx[n + 1]) <= MaxV /\ CAbs(x.vy[n + 1]) <= MaxV /\ Newton(x, n)
           /\ t' = x
        /\ counts' = Append(counts, 1)
Spec == Init /\ [][Next]_vars

N == Len(t.x)
Limits(x) == \A n \in 0..(N - 1), i \in 1..M : ForceOK(D, x, n, i) = 1 /\ SpeedOK(D, x, n, i) = 1
StepsOK(x) == \A k \in 1..Len(x.dt) : StepOK(D, x, x.dt[k]) = 1
\* what Robot calls physical is exactly: moving like this, within the limits
IsPhysical == (Physical(D, counts, t) = 1) = (Limits(t) /\ StepsOK(t))
TurnsRight == Headings(counts, t) = 1
\* Newton's laws, summed over the trajectory
Impulse(f) == SumSeq([n \in 1..(N - 1) |-> SumSeq(t[f][n + 1], M) * t.dt[n]], N - 1)
Momentum == D.mass * (t.vx[N] - t.vx[1]) = Impulse("fx") /\ D.mass * (t.vy[N] - t.vy[1]) = Impulse("fy")
Spin == D.moi * (t.w[N] - t.w[1]) =
        SumSeq([n \in 1..(N - 1) |-> SumSeq([i \in 1..M |-> Torque(D, t, n, i)], M) * t.dt[n]], N - 1)
Clock == Duration(counts, t.dt, Len(counts)) = SumSeq(t.dt, Len(t.dt))
\* no entry of a trajectory of at least one interval is free
Fields == {"x", "y", "vx", "vy", "w", "ax", "ay", "al"}
Determined == N >= 2 => \A f \in Fields, n \in 1..N, d \in {-1, 1} :
    LET x == [t EXCEPT ![f][n] = @ + d] IN ~(MotionOK(counts, x) /\ \A k \in 0..(N - 1) : Newton(x, k))
ForcesDetermined == \A f \in {"fx", "fy"}, n \in 1..N, i \in 1..M, d \in {-1, 1} :
    ~Newton([t EXCEPT ![f][n][i] = @ + d], n - 1)
HeadingsDetermined == N >= 2 => \A n \in 1..N : LET h == <<t.c[n], t.s[n]>> IN
    \A k \in {<<-h[1], -h[2]>>, <<-h[2], h[1]>>, <<h[2], -h[1]>>} : Headings(counts, [t EXCEPT !.c[n] = k[1], !.s[n] = k[2]]) = 0
\* a quarter turn of the field, another order of the modules
Neg(v) == [k \in 1..Len(v) |-> -v[k]]
NegAll(v) == [k \in 1..Len(v) |-> Neg(v[k])]
Quarter(x) == [x EXCEPT !.x = Neg(x.y), !.y = x.x, !.vx = Neg(x.vy), !.vy = x.vx, !.ax = Neg(x.ay), !.ay = x.ax,
                        !.c = Neg(x.s), !.s = x.c, !.fx = NegAll(x.fy), !.fy = x.fx]
Swap(v) == <<v[2], v[1]>>
Swapped(x) == [x EXCEPT !.fx = [n \in 1..N |-> Swap(@[n])], !.fy = [n \in 1..N |-> Swap(@[n])]]
Symmetric == /\ Physical(D, counts, Quarter(t)) = Physical(D, counts, t) /\ Headings(counts, Quarter(t)) = 1
             /\ Physical([D EXCEPT !.mods = Swap(@)], counts, Swapped(t)) = Physical(D, counts, t)
\* not so: that headings linked up to a half turn (which is what the code asks) are determined
HalfTurnEnough == N >= 2 => \A n \in 1..N : ~HeadingsHalfTurn(counts, [t EXCEPT !.c[n] = -@, !.s[n] = -@])
===============================================================================
