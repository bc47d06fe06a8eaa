------------------------------- MODULE Gen_Layout -------------------------------
(* Count lists for the real code: every list up to (MaxSeg, MaxN), and random   *)
(* long and large ones.                                                         *)
EXTENDS GenIO
CONSTANTS MaxSeg, MaxN, RandomLists, RandomLen, RandomN
VARIABLE n
Case(lists) == [cmds |-> [i \in 1..Len(lists) |-> [op |-> "index", ns |-> lists[i]]]]
Lists(k) == [1..k -> 0..MaxN]
\* a list and lists that are easily taken for it, one after the other
Swap(s, a, b) == [k \in 1..Len(s) |-> IF k = a THEN s[b] ELSE IF k = b THEN s[a] ELSE s[k]]
Alike(s, big) == LET a == RandomElement(1..Len(s))  b == RandomElement(1..Len(s)) IN
    TLCEval(<< s, [s EXCEPT ![a] = RandomElement(0..big)], s, Swap(s, a, b), SubSeq(s, 1, a), SubSeq(s, a, Len(s)),
       [s EXCEPT ![(Len(s) + 1) \div 2] = @ + 1], Append(s, 0), <<0>> \o s, s >>)
Init == n = 0
Next ==
    \/ /\ n <= MaxSeg
       /\ LET L == Lists(n) IN
          IF n = 0 THEN Emit(Case(<< <<>> >>))
          ELSE \A a \in 0..MaxN : Emit(Case(Enumerate({f \in L : f[1] = a})))
       /\ n' = n + 1
    \/ /\ n > MaxSeg /\ n <= MaxSeg + RandomLists
       /\ LET len == RandomElement(1..RandomLen)
              big == RandomElement({1, 2, 10, 100, 1000, 30000, RandomN})
          IN \E s \in {TLCEval([k \in 1..len |-> RandomElement(0..big)])} : Emit(Case(Alike(s, big)))
       /\ n' = n + 1
Spec == Init /\ [][Next]_n
===============================================================================
