------------------------------- MODULE Gen_Interp -------------------------------
EXTENDS GenIO
CONSTANTS Behaviours, Batch
VARIABLE n
\* headings in degrees: everyday ones, close to the half-turn boundary, many turns
Heading(z) == LET kind == Pick(1..4) IN
    CASE kind = 1 -> Pick(-180..180)
      [] kind = 2 -> 15 * Pick(-48..48)
      [] kind = 3 -> 180 * Pick(-9..9) + Pick(-2..2)
      [] kind = 4 -> 360 * Pick(-300..300) + Pick(-360..360)
\* another heading; now and then one close to the first, or to its opposite
Near(a) == LET k == Pick(1..6) IN IF k = 1 THEN a + Pick(-2..2) ELSE IF k = 2 THEN a + 180 + Pick(-2..2) ELSE Heading(0)
Steps(a, b) == LET big == IF a < 0 THEN -a ELSE a IN Pick(IF big > 5000 THEN 0..6 ELSE IF Pick(1..20) = 1 THEN {100, 300} ELSE 0..40)
Ang(z) == LET a == Heading(0)  b == Near(a)
      d == Pick({1, 1, 7, 64}) IN
    [op |-> "anglespace", a |-> [deg |-> a, d |-> d], b |-> [deg |-> b, d |-> d], n |-> Steps(a, b), unit |-> [deg |-> 1, d |-> d]]
\* (in units of any size: powers of two)
LinOf(k) == LET e == PickFrom(<<0, 0, 0, 1, -3, 20, -20, 60, -60, 300, -300>>)  d == Pick({1, 2, 3, 4, 7, 10})
                L == IF k > 500 THEN 200 ELSE 500  a == Pick((-L)..L)  b == Pick({a, 0, 1, Pick((-L)..L)}) IN
    [op |-> "linspace", a |-> [n |-> a, d |-> d, e |-> e], b |-> [n |-> b, d |-> d, e |-> e],
     n |-> k, unit |-> [n |-> 1, d |-> d, e |-> e]]
Lin(z) == CHOOSE r \in {LinOf(k) : k \in {Pick({0, 1, 2, 3, Pick(0..60), IF Pick(1..5) = 1 THEN Pick(100..2000) ELSE 5})}} : TRUE
Init == n = 0
Next == /\ n < Behaviours /\ n' = n + 1
        /\ EmitCmds([i \in 1..Batch |-> IF Pick(1..3) = 1 THEN Lin(0) ELSE Ang(0)])
Spec == Init /\ [][Next]_n
===============================================================================
