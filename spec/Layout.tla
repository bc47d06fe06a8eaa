-------------------------------- MODULE Layout --------------------------------
(***************************************************************************)
(* The flat sample layout (C01).  ns is the sequence of control-interval    *)
(* counts, one per segment; ns[w] is the segment that ends at waypoint w    *)
(* (waypoints are numbered from 0).  Samples are numbered from 0.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE SumTo(_, _)
SumTo(ns, k) == IF k <= 0 THEN 0 ELSE ns[k] + SumTo(ns, k - 1)

Segments(ns)  == Len(ns)
Waypoints(ns) == Len(ns) + 1
Total(ns)     == 1 + SumTo(ns, Len(ns))

\* first sample of waypoint w's own block; w = Waypoints(ns) gives the total
First(ns, w)    == IF w = 0 THEN 0 ELSE 1 + SumTo(ns, w - 1)
Index(ns, w, i) == First(ns, w) + i
\* number of samples of waypoint w's block
Own(ns, w)      == IF w = 0 THEN 1 ELSE ns[w]
Owned(ns, w)    == {Index(ns, w, i) : i \in 0..(Own(ns, w) - 1)}
\* the sample at which the robot is at waypoint w
WptSample(ns, w) == Index(ns, w + 1, 0) - 1
\* samples of the closed stretch from waypoint a to waypoint b
Stretch(ns, a, b) == WptSample(ns, a) .. WptSample(ns, b)
\* the segment (1..) of interval n -> n+1, n = 0 .. Total-2
SegmentOf(ns, n) == CHOOSE w \in 1..Len(ns) : (n + 1) \in Owned(ns, w)

(***************************************************************************)
(* The guarantees.                                                          *)
(***************************************************************************)
Wpts(ns) == 0..Len(ns)

\* every sample belongs to exactly one waypoint's block, in order, no gap
Partition(ns) ==
    /\ UNION {Owned(ns, w) : w \in Wpts(ns)} = 0..(Total(ns) - 1)
    /\ \A v, w \in Wpts(ns) : v # w => Owned(ns, v) \cap Owned(ns, w) = {}
    /\ \A v, w \in Wpts(ns) : v < w =>
          \A a \in Owned(ns, v), b \in Owned(ns, w) : a < b
OneIndexEach(ns) ==
    \A v, w \in Wpts(ns) : \A i \in 0..(Own(ns, v) - 1), j \in 0..(Own(ns, w) - 1) :
        Index(ns, v, i) = Index(ns, w, j) => v = w /\ i = j
WptIsLast(ns) ==
    \A w \in Wpts(ns) : Own(ns, w) > 0 =>
        /\ WptSample(ns, w) \in Owned(ns, w)
        /\ \A n \in Owned(ns, w) : n <= WptSample(ns, w)
IntervalsCovered(ns) ==
    \A n \in 0..(Total(ns) - 2) : \E w \in 1..Len(ns) : (n + 1) \in Owned(ns, w)
LayoutOK(ns) == Partition(ns) /\ OneIndexEach(ns) /\ WptIsLast(ns) /\ IntervalsCovered(ns)
===============================================================================
