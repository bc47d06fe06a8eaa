------------------------------- MODULE MC_Interp -------------------------------
(* Walking from heading a to heading b in n steps, for all headings within      *)
(* +-Lim units (several turns).                                                 *)
EXTENDS Interp
CONSTANTS M, Lim, MaxN
VARIABLES a, b, n, k, d, pos   \* pos is n times the position
vars == <<a, b, n, k, d, pos>>
Init == /\ a \in -Lim..Lim /\ b \in -Lim..Lim /\ n \in 1..MaxN
        /\ d \in Turns(a, b, M) /\ k = 0 /\ pos = a * n
Step == k < n /\ k' = k + 1 /\ pos' = pos + d /\ UNCHANGED <<a, b, n, d>>
Spec == Init /\ [][Step]_vars
Exists    == Turns(a, b, M) # {}
Unique    == Cardinality(Turns(a, b, M)) = 1 \/ (b - a) % M = M \div 2
ShortWay  == 2 * IAbs(pos - a * n) <= M * n
OnTheLine == pos = ScaledValue(a, d, n, k)
EndsRight == k = n => Congruent(pos, b * n, M * n)
\* no shorter turn ends at a congruent heading
Shortest  == \A e \in -M..M : Congruent(a + e, b, M) => IAbs(d) <= IAbs(e)
===============================================================================
