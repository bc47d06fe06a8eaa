------------------------------ MODULE MC_Convert ------------------------------
(* The clock of a converted trajectory: it starts at 0, each interval takes exactly *)
(* its time step, so that it never runs backwards and ends at the total duration.   *)
EXTENDS Convert
CONSTANTS MaxN, MaxDt
VARIABLE dt
Init == dt = <<>>
Next == Len(dt) < MaxN /\ \E d \in 0..MaxDt : dt' = Append(dt, d)
Spec == Init /\ [][Next]_dt
RECURSIVE Sum(_)
Sum(v) == IF v = <<>> THEN 0 ELSE v[Len(v)] + Sum(SubSeq(v, 1, Len(v) - 1))
Steps == /\ Clock(dt, 1) = 0
         /\ \A i \in 1..Len(dt) : Clock(dt, i + 1) - Clock(dt, i) = dt[i]
         /\ Clock(dt, Len(dt) + 1) = Sum(dt)
===============================================================================
