------------------------------ MODULE Trace_Layout ------------------------------
(* obs.tab[w+1][i+1] is what the code answers for waypoint w, sample i, for      *)
(* w = 0 .. Len(ns)+1 (the last gives the total); obs.def[w+1] is the answer     *)
(* without a sample argument; obs.far[w+1] for a sample number far outside.      *)
EXTENDS Layout, TraceIO
Judge(s, c, o) ==
    Bad(s,
      Need(o.ok, "exception", o) \cup
      IF ~o.ok THEN {} ELSE
      Need(Len(o.tab) = Len(c.ns) + 2, "table", o) \cup
      Need(\A w \in 0..(Len(c.ns) + 1) : \A i \in 1..Len(o.tab[w + 1]) :
              o.tab[w + 1][i] = Index(c.ns, w, i - 1), "index", c.ns) \cup
      Need(\A w \in 0..(Len(c.ns) + 1) : o.def[w + 1] = Index(c.ns, w, 0), "default-sample", c.ns) \cup
      Need(\A w \in 0..(Len(c.ns) + 1) : o.far[w + 1] = Index(c.ns, w, 1000000), "far-sample", c.ns) \cup
      \* the observed table itself is a bijection onto 0 .. Total-1
      Need({o.tab[w + 1][i + 1] : <<w, i>> \in {<<w, i>> \in (0..Len(c.ns)) \X (0..12) : i < Own(c.ns, w)}}
             \subseteq 0..(o.tab[Len(c.ns) + 2][1] - 1), "range", c.ns))
TraceSpec == TraceInit(0) /\ [][TraceNext(0, Judge)]_<<l, st, skip>>
===============================================================================
