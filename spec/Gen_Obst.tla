-------------------------------- MODULE Gen_Obst --------------------------------
(* Bumper sets and obstacles of every shape, and many poses around them (C05).     *)
EXTENDS GenLang
CONSTANTS Behaviours, Poses, Lang
VARIABLES i
vars == <<i>>

Heads(u) == IF u = 1 THEN <<(<<1, 0>>), (<<0, 1>>), (<<-1, 0>>), (<<0, -1>>)>>
    ELSE <<(<<3, 4>>), (<<4, 3>>), (<<-3, 4>>), (<<-4, 3>>), (<<3, -4>>), (<<4, -3>>), (<<-3, -4>>), (<<-4, -3>>), (<<5, 0>>), (<<0, 5>>)>>
\* n different points within L of the origin
RECURSIVE Points(_, _, _)
Points(n, L, sofar) ==
    IF n = 0 THEN sofar
    ELSE LET free == {<<a, b>> : a, b \in (-L)..L} \ Range(sofar) IN Points(n - 1, L, Append(sofar, Pick(free)))
\* corners in order around a circle, either way round
Circle == <<(<<5, 0>>), (<<4, 3>>), (<<3, 4>>), (<<0, 5>>), (<<-3, 4>>), (<<-4, 3>>), (<<-5, 0>>), (<<-4, -3>>), (<<-3, -4>>), (<<0, -5>>), (<<3, -4>>), (<<4, -3>>)>>
RECURSIVE Some(_, _)
Some(n, S) == IF n = 0 THEN {} ELSE CHOOSE r \in {{x} \cup Some(n - 1, S \ {x}) : x \in {Pick(S)}} : TRUE
RingOf(on, first, way, r) == LET all == SelectSeq([k \in 1..12 |-> 1 + ((way * k + first) % 12)], LAMBDA k : k \in on)
    IN [k \in 1..Len(all) |-> <<r * Circle[all[k]][1], r * Circle[all[k]][2]>>]
Ring(n) == CHOOSE p \in {RingOf(on, first, way, r) : on \in {Some(n, 1..12)}, first \in {Pick(0..11)}, way \in {Pick({1, -1})}, r \in {Pick({1, 2})}} : TRUE
Distinct(L, m) == IF m <= 2 THEN Points(Pick(1..m), L, <<>>) ELSE IF L >= 4 /\ Pick(1..3) = 1 THEN Ring(Pick(3..9)) ELSE Points(PickFrom(<<1, 2, 3, 3, 4, Pick(1..m)>>), L, <<>>)
\* now and then a corner is given twice, or the first again at the end
Again(pts, k) == SubSeq(pts, 1, k) \o SubSeq(pts, k, Len(pts))
Repeat(pts, how) == CASE how = 1 -> Again(pts, Pick(1..Len(pts))) [] how = 2 -> Append(pts, pts[1]) [] OTHER -> pts
Shape(L, m) == CHOOSE s \in {Repeat(pts, how) : pts \in {Distinct(L, m)}, how \in {Pick(1..14)}} : TRUE
Bumpers(L, m) == IF Lang = "rust" THEN [op |-> "bumpers", sd |-> Margin, pts |-> Corners(2 * Pick(1..L), 2 * Pick(1..L))]
              ELSE [op |-> "bumpers", sd |-> Pick(0..2), pts |-> Shape(L, m)]
Obstacle(L, S, m) ==
    LET a == IF Lang = "rust" \/ Pick(1..2) = 1 THEN 0 ELSE Pick(0..S)  b == IF Lang = "rust" \/ Pick(1..2) = 1 THEN S ELSE Pick(a..S) IN
    IF a = b THEN [op |-> "wpt_obs", i |-> a, sd |-> Pick(0..2), pts |-> Shape(L, m)]
    ELSE [op |-> "seg_obs", i |-> a, j |-> b, sd |-> Pick(0..2), pts |-> Shape(L, m)]
\* coordinate lists of different lengths: nothing happens
Lists(n) == TLCEval([k \in 1..n |-> Pick(-3..3)])
Unequal(S) == LET n == Pick(0..4) IN [op |-> "rs", f |-> "sgmt_polygon_obstacle", from_index |-> 0, to_index |-> S, x |-> Lists(n),
               y |-> Lists(Pick((0..5) \ {n})), radius |-> Pick(0..5)]
RECURSIVE Calls(_, _, _, _, _)
Calls(n, LB, LO, S, m) ==
    IF n = 0 THEN <<>>
    ELSE <<IF Pick({1, 2, 3}) = 1 THEN Bumpers(LB, m) ELSE Obstacle(LO, S, m)>> \o Calls(n - 1, LB, LO, S, m)
\* where a piece of a bumper meets a piece of an obstacle, or nearly so
Piece(pts) == LET k == Pick(1..Len(pts))  j == (k % Len(pts)) + 1 IN
    PickFrom(<<pts[k], (<<(pts[k][1] + pts[j][1]) \div 2, (pts[k][2] + pts[j][2]) \div 2>>)>>)
Meeting(u, h, p, q, d) == <<q[1] - (h[1] * p[1] - h[2] * p[2]) \div u + Pick((-d)..d), q[2] - (h[2] * p[1] + h[1] * p[2]) \div u + Pick((-d)..d)>>
Of(cmds, ops) == {k \in 1..Len(cmds) : cmds[k].op \in ops}
\* pairs of a corner and an edge (or corner) of the other shape that are too near each other
Pieces(pts) == IF Len(pts) = 1 THEN {<<pts[1], pts[1]>>} ELSE Edges(pts)
Hits(st, b, o) ==
    LET BP == [k \in 1..Len(b.pts) |-> OnField(st, b.pts[k])]
        OP == [k \in 1..Len(o.pts) |-> Scale(st.u, o.pts[k])]
        D == (b.sd + o.sd) * st.u
    IN Cardinality({<<p, e>> \in Range(BP) \X Pieces(OP) : SegmentApart(p, e[1], e[2], D, st.u) = 0})
     + Cardinality({<<p, e>> \in Range(OP) \X Pieces(BP) : SegmentApart(p, e[1], e[2], D, st.u) = 0})
\* a few places where the shapes meet: one where they just do, or just do not, or any
Tries == 6
Best(S, u, h, b, o) ==
    LET N == [at \in S |-> Hits([x |-> at[1], y |-> at[2], c |-> h[1], s |-> h[2], u |-> u], b, o)]
        wanted == PickFrom(<<{1}, {1}, {0}, {1, 2, 3}, 0..1000>>)
        good == {at \in S : N[at] \in wanted}
    IN Pick(IF good = {} THEN S ELSE good)
Place(cmds, u, h, L) ==
    LET O == Of(cmds, {"wpt_obs", "seg_obs"}) IN
    IF O = {} \/ Pick(1..4) = 1 THEN <<Pick((-L)..L), Pick((-L)..L)>>
    ELSE LET PlaceBy(b, o) == CHOOSE at \in {Best(S, u, h, b, o)
                         : S \in {TLCEval({Meeting(u, h, Piece(b.pts), Piece(o.pts), o.sd + b.sd + 1) : k \in 1..Tries})}} : TRUE
             From(o) == CHOOSE at \in {PlaceBy(cmds[b], cmds[o]) : b \in {Pick({k \in Of(cmds, {"bumpers"}) : k < o})}} : TRUE
         IN CHOOSE at \in {From(o) : o \in {Pick(O)}} : TRUE
\* standing still at a pose for T samples
Stand(T, u, at, h) ==
    [x |-> [n \in 1..T |-> at[1]], y |-> [n \in 1..T |-> at[2]], c |-> [n \in 1..T |-> h[1]], s |-> [n \in 1..T |-> h[2]],
     vx |-> [n \in 1..T |-> 0], vy |-> [n \in 1..T |-> 0], w |-> [n \in 1..T |-> 0], al |-> [n \in 1..T |-> 0],
     ax |-> [n \in 1..T |-> 0], ay |-> [n \in 1..T |-> 0], fx |-> [n \in 1..T |-> <<>>], fy |-> [n \in 1..T |-> <<>>],
     dt |-> [n \in 1..(T - 1) |-> 1], uc |-> u]
Stands(m, T, u, cmds, L) ==
    [k \in 1..m |-> CHOOSE t \in UNION {{Stand(T, u, at, h) : at \in {Place(cmds, u, h, L)}} : h \in {PickFrom(Heads(u))}} : TRUE]
Case(z) ==
    \E u \in {Pick({1, 5})} : \E S \in {IF Lang = "rust" THEN 1 ELSE PickFrom(<<0, 1, 1, 2>>)} :
    \E LB \in {Pick({1, 3, 5})} : \E LO \in {Pick({1, 4, 8})} : \E LP \in {Pick({3, 6, 9})} :
    \* corners at most (6: polygons); calls besides
    \E m \in {PickFrom(<<6, 6, 6, 2, 1>>)} : \E n \in {Pick(0..(IF m = 1 THEN 6 ELSE 2))} :
    \E obs \in {TLCEval(<<Bumpers(LB, m)>> \o (IF n = 0 THEN <<Obstacle(LO, S, m)>> ELSE Calls(n, LB, LO, S, m) \o <<Obstacle(LO, S, m)>> \o Calls(1, LB, LO, S, m)))} :
       EmitIn(Lang, <<[op |-> "drive", mass |-> 1, moi |-> 1, mods |-> <<>>],
                  [op |-> "wpt_guess", i |-> S, p |-> <<0, 0, [deg |-> 0]>>]>> \o Away(S) \o <<[op |-> "counts", ns |-> [k \in 1..S |-> 1]]>> \o obs
                \o (IF Lang = "rust" /\ Pick(1..2) = 1 THEN <<Unequal(S)>> ELSE <<>>)
                \o <<[op |-> "new_gen", g |-> 0], [op |-> "probe", g |-> 0, trajs |-> Stands(Poses, S + 1, u, obs, LP)]>>)
Init == i = 0
Next == i < Behaviours /\ i' = i + 1 /\ Case(i)
Spec == Init /\ [][Next]_vars
===============================================================================
