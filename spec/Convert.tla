-------------------------------- MODULE Convert --------------------------------
(* A solution as a timed trajectory.  Sequences are 1-based; entry i of every      *)
(* array belongs to sample i - 1, and dt[i] to the interval from sample i - 1 to i. *)
EXTENDS Integers, Sequences
RECURSIVE Clock(_, _)
Clock(dt, i) == IF i = 1 THEN 0 ELSE Clock(dt, i - 1) + dt[i - 1]
SolSamples(sol) == Len(sol.x)
\* everything but the heading, which is the direction of <<sol.c[i], sol.s[i]>>
SampleAt(sol, i) == [t |-> Clock(sol.dt, i), x |-> sol.x[i], y |-> sol.y[i], vx |-> sol.vx[i], vy |-> sol.vy[i], w |-> sol.w[i],
                     fx |-> sol.fx[i], fy |-> sol.fy[i]]
===============================================================================
