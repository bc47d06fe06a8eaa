------------------------------ MODULE Trace_Interp ------------------------------
(* obs.v, lo: the values in thousandths of a unit (for headings, 1/d of a degree) and  *)
(* what rounding left of them in billionths.                                          *)
EXTENDS Interp, TraceIO
S == 1000
Judge(s, c, o) ==
    Bad(s,
      IF ~o.ok THEN {<<"exception", o>>} ELSE
      IF c.op = "linspace"
      THEN Need(IsInterp(o.v, o.lo, c.a.n, c.b.n - c.a.n, c.n, S, 20), "linspace", [c |-> c, v |-> o.v])
      ELSE Need(\E d \in Turns(c.a.deg, c.b.deg, 360 * c.unit.d) : IsInterp(o.v, o.lo, c.a.deg, d, c.n, S, 20),
                "anglespace", [c |-> c, v |-> o.v]))
TraceSpec == TraceInit(0) /\ [][TraceNext(0, Judge)]_<<l, st, skip>>
===============================================================================
