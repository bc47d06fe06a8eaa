-------------------------------- MODULE Interp --------------------------------
(***************************************************************************)
(* Interpolation (C07).  Linear interpolation from a to b in n steps: n     *)
(* values, the k-th is a + k/n (b - a).  Headings are measured in units of  *)
(* which M make a full turn; interpolating them follows a turn d of at most *)
(* half a turn that ends at a heading congruent to b.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

IAbs(x) == IF x < 0 THEN -x ELSE x
\* n times the k-th value of an n-step interpolation over a change of d
ScaledValue(a, d, n, k) == a * n + k * d

Congruent(x, y, M) == (x - y) % M = 0
\* the admissible turns: at most half a turn (exactly half: either way)
Turns(a, b, M) == {d \in {((b - a) % M), ((b - a) % M) - M} : 2 * IAbs(d) <= M}

\* Observed numbers come in two parts: v in 1/S units (rounded) and what is left of
\* it, lo, in millionths of that.  n times the number is e, up to t millionths:
Rest == 1000000
Fits(x, n) == IAbs(x) <= 2000000000 \div (IF n = 0 THEN 1 ELSE n)
IsAt(v, lo, e, n, t) ==
    /\ Fits(v, n)
    /\ LET r == v * n - e IN 2 * IAbs(r) <= n + 2 /\ IAbs(r * Rest + lo * n) <= t * n
\* v, lo is an n-step interpolation over a change of d
IsInterp(v, lo, a, d, n, S, t) ==
    /\ Len(v) = n /\ Len(lo) = n
    /\ \A k \in 1..n : IsAt(v[k], lo[k], S * ScaledValue(a, d, n, k), n, t)
===============================================================================
