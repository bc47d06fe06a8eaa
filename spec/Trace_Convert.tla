----------------------------- MODULE Trace_Convert -----------------------------
(* hc, hs: cosine and sine of the returned heading, in millionths. *)
EXTENDS Convert, TraceIO
Fields == {"t", "x", "y", "vx", "vy", "w", "fx", "fy"}
\* the unit vector <<hc, hs>> has the direction of <<c, s>> (whose entries are below 1000)
Points(hc, hs, c, s) == /\ Abs(hs * c - hc * s) <= 3 * (Abs(c) + Abs(s))
                        /\ hc * c + hs * s > 0
Blank == [t |-> 0, x |-> 0, y |-> 0, vx |-> 0, vy |-> 0, w |-> 0, hc |-> 1000000, hs |-> 0, fx |-> <<>>, fy |-> <<>>]
Judge(st0, c, o) ==
    Bad(st0,
      Need(o.same, "source-changed", c) \cup
      Need(o.again = o.traj, "copy", c) \cup Need(o.made = o.traj, "made-of-parts", c) \cup
      Need(o.bare = [i \in 1..Len(o.traj) |-> [o.traj[i] EXCEPT !.fx = <<>>, !.fy = <<>>]], "made-without-forces", c) \cup
      Need(o.empty = <<>>, "empty", <<>>) \cup Need(o.blank = <<Blank>>, "blank", Blank) \cup
      IF Len(o.traj) # SolSamples(c) THEN {<<"sample-count", SolSamples(c)>>} ELSE
      UNION {Need(\A i \in 1..SolSamples(c) : o.traj[i][f] = SampleAt(c, i)[f], f, [i \in 1..SolSamples(c) |-> SampleAt(c, i)[f]])
                : f \in Fields} \cup
      Need(\A i \in 1..SolSamples(c) : Points(o.traj[i].hc, o.traj[i].hs, c.c[i], c.s[i]), "heading", <<c.c, c.s>>))
TraceSpec == TraceInit(0) /\ [][TraceNext(0, Judge)]_<<l, st, skip>>
===============================================================================
