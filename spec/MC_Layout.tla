------------------------------- MODULE MC_Layout -------------------------------
(* Layout's guarantees for every count list of up to MaxSeg segments of up to  *)
(* MaxN intervals: the list grows one segment or one interval at a time.       *)
EXTENDS Layout
CONSTANTS MaxSeg, MaxN
VARIABLE ns
Init == ns = <<>>
AddSegment == Len(ns) < MaxSeg /\ ns' = Append(ns, 0)
AddInterval == \E k \in 1..Len(ns) : ns[k] < MaxN /\ ns' = [ns EXCEPT ![k] = @ + 1]
Next == AddSegment \/ AddInterval
Spec == Init /\ [][Next]_ns
Correct == LayoutOK(ns)
\* adding intervals to a segment moves exactly the later samples
Monotone == [][\A w \in 0..Len(ns) : First(ns', w) >= First(ns, w)]_ns
===============================================================================
