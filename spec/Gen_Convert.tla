------------------------------ MODULE Gen_Convert ------------------------------
(* Solutions with arbitrary, pairwise different values in every role.              *)
EXTENDS GenIO
CONSTANTS Behaviours, Batch, MaxN
VARIABLE n
\* (fine: with more digits than single precision holds)
Digits(v, fine) == IF fine THEN 100000 * v + Pick(0..99999) ELSE v
Nums(k, base, fine) == TLCEval([i \in 1..k |-> Pick({-1, 1}) * Digits(base + Pick(0..999), fine)])
Rows(k, m, base, fine) == TLCEval([i \in 1..k |-> TLCEval([j \in 1..m |-> Pick({-1, 1}) * Digits(base + 20 * j + Pick(0..19), fine)])])
\* headings of any length, in all directions, the axes included
Dir(z) == PickFrom(<<<<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -1>>, <<-999, 1>>, <<-999, -1>>,
                     <<Pick(1..999), Pick(-999..999)>>, <<-Pick(1..999), Pick(-999..999)>>, <<Pick(1..9), Pick(-9..9)>>>>)
\* (drawn anew in each step only if it mentions a variable)
Sol(k, m, fine) == LET d == TLCEval([i \in 1..k |-> Dir(0)]) IN
    [op |-> "convert", unit |-> IF fine THEN 1048576 ELSE 64, uc |-> Pick({1, 100, 1000}),
     \* (an iterate's time steps need not be positive)
     dt |-> TLCEval([i \in 1..(IF k = 0 THEN 0 ELSE k - 1) |-> Pick(IF fine THEN {0, Pick(1..(1000000000 \div k)), Pick(1..(1000000000 \div k))} ELSE {0, 1, Pick(1..64), Pick(1..640), Pick(-64..-1)})]),
     x |-> Nums(k, 1000, fine), y |-> Nums(k, 2000, fine), vx |-> Nums(k, 3000, fine), vy |-> Nums(k, 4000, fine), w |-> Nums(k, 5000, fine),
     ax |-> Nums(k, 6000, fine), ay |-> Nums(k, 7000, fine), al |-> Nums(k, 8000, fine),
     c |-> [i \in 1..k |-> d[i][1]], s |-> [i \in 1..k |-> d[i][2]],
     fx |-> Rows(k, m, 9000, fine), fy |-> Rows(k, m, 10000, fine)]
Init == n = 0
Next == /\ n < Behaviours /\ n' = n + 1
        /\ \E cs \in {TLCEval([i \in (n - n + 1)..Batch |-> TLCEval(Sol(Pick({0, 1, 2, 3, Pick(0..MaxN), IF Pick(1..20) = 1 THEN Pick(MaxN..10 * MaxN) ELSE 4}), Pick(IF Pick(1..10) = 1 THEN 7..16 ELSE 0..6), i % 2 = 0))])} : EmitCmds(cs)
Spec == Init /\ [][Next]_n
===============================================================================
