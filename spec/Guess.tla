--------------------------------- MODULE Guess ---------------------------------
(***************************************************************************)
(* The initial guess (C06).  The segment that ends at waypoint w leads from *)
(* the last guess point of w-1 through the guess points of w; its N         *)
(* intervals are shared equally among the m stretches, the remainder going  *)
(* to the last one.                                                         *)
(***************************************************************************)
EXTENDS Layout, Interp

Share(N, m, i) == IF i < m THEN N \div m ELSE N - (m - 1) * (N \div m)
\* all stretches in order: [from, to, n, first]: n steps ending in samples first..first+n-1
RECURSIVE SegStretches(_, _, _, _, _, _)
SegStretches(prev, pts, i, m, N, first) ==
    IF i > m THEN <<>>
    ELSE <<[from |-> prev, to |-> pts[i], n |-> Share(N, m, i), first |-> first]>>
         \o SegStretches(pts[i], pts, i + 1, m, N, first + Share(N, m, i))
RECURSIVE StretchesFrom(_, _, _)
StretchesFrom(guess, counts, w) ==
    IF w > Len(counts) THEN <<>>
    ELSE SegStretches(guess[w][Len(guess[w])], guess[w + 1], 1, Len(guess[w + 1]), counts[w], First(counts, w))
         \o StretchesFrom(guess, counts, w + 1)
Stretches(guess, counts) == StretchesFrom(guess, counts, 1)

HasDeg(p) == "deg" \in DOMAIN p[3]
Deg(p) == p[3].deg

\* observed coordinate arrays (S units per unit) and their rests, 0-based sample n at index n+1
OnStretch(v, lo, z, k, S, tol) ==
    \A i \in 1..z.n : IsAt(v[z.first + i], lo[z.first + i], S * (z.from[k] * z.n + i * (z.to[k] - z.from[k])), z.n, tol)
\* observed headings in thousandths of a degree, any turn
SameTurn(h, lo, e, n, tol) ==      \* n times the heading is e, any number of turns apart
    /\ Fits(h, n)
    /\ LET d == (h * n - e) % (360000 * n) IN
       IF d <= n THEN IsAt(0, lo, -d, n, tol) ELSE 360000 * n - d <= n /\ IsAt(0, lo, 360000 * n - d, n, tol)
HeadingOnStretch(h, lo, z, tol) ==
    HasDeg(z.from) /\ HasDeg(z.to) =>
    \E d \in Turns(Deg(z.from), Deg(z.to), 360) :
        \A i \in 1..z.n : SameTurn(h[z.first + i], lo[z.first + i], 1000 * ((Deg(z.from) % 360) * z.n + i * d), z.n, tol)

(***************************************************************************)
(* Guarantees of the stretches (checked in MC_Guess).                       *)
(***************************************************************************)
StretchesOK(guess, counts) ==
    LET Z == Stretches(guess, counts) IN
    /\ UNION {z.first..(z.first + z.n - 1) : z \in {Z[i] : i \in 1..Len(Z)}} = 1..(Total(counts) - 1)
    /\ \A i \in 1..Len(Z) : i > 1 => Z[i].first = Z[i - 1].first + Z[i - 1].n /\ Z[i].from = Z[i - 1].to
    \* each waypoint's own guess is reached at its own sample
    /\ \A w \in 1..Len(counts) : counts[w] > 0 =>
          \E i \in 1..Len(Z) : /\ Z[i].to = guess[w + 1][Len(guess[w + 1])]
                               /\ Z[i].first + Z[i].n - 1 = WptSample(counts, w) /\ Z[i].n > 0
    \* fair shares: no two stretches of a segment but the last differ, the last is not shorter
    /\ \A w \in 1..Len(counts) : \A i \in 1..Len(guess[w + 1]) :
          LET m == Len(guess[w + 1]) IN
          /\ Share(counts[w], m, i) >= counts[w] \div m
          /\ Share(counts[w], m, i) < counts[w] \div m + m
===============================================================================
