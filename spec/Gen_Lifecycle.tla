------------------------------ MODULE Gen_Lifecycle ------------------------------
(* Histories of generators: made, started, iterating, cancelled, finishing, moved,  *)
(* run again, while time passes and builders change (C11-C14, C19).                 *)
EXTENDS World, GenIO
CONSTANTS Ops, Mix
VARIABLES w, hist, n, tag,
          stop,  \* generations whose solver was told to stop
          asked, \* or may have been
          used, done
vars == <<w, hist, n, tag, stop, asked, used, done>>

Mods == << [x |-> 30, y |-> 0, r |-> 1, w |-> 29, t |-> 90], [x |-> -30, y |-> 0, r |-> 1, w |-> 29, t |-> 90] >>
Drives == <<[op |-> "drive", b |-> 0, mass |-> 2, moi |-> 0, mods |-> Mods], [op |-> "drive", b |-> 1, mass |-> 1, moi |-> 3, mods |-> <<>>]>>
Lane(k) == [t |-> "pp", r |-> <<0, 0>>, f |-> <<0, 10 * k>>, m |-> 2]
Setup == <<Drives[1], Drives[2],
           [op |-> "wpt_guess", b |-> 0, i |-> 2, p |-> <<0, 0, [deg |-> 0]>>], [op |-> "counts", b |-> 0, ns |-> <<2, 1>>],
           [op |-> "wpt_guess", b |-> 1, i |-> 0, p |-> <<3, 4, [deg |-> 90]>>],
           [op |-> "wpt_con", b |-> 0, i |-> 1, c |-> Lane(1)]>>
RECURSIVE After(_, _)
After(ww, cmds) == IF cmds = <<>> THEN ww ELSE After(Step(ww, cmds[1], FALSE), Tail(cmds))

\* a robot gliding past lane k so that it is at it at sample p
Glide(counts, M, k, p) ==
    LET T == Total(counts)  Z == [q \in 1..T |-> 0] IN
    [x |-> [q \in 1..T |-> 10 * (q - 1 - p)], y |-> [q \in 1..T |-> 10 * k], c |-> [q \in 1..T |-> 1], s |-> Z,
     vx |-> [q \in 1..T |-> 10], vy |-> Z, w |-> Z, ax |-> Z, ay |-> Z, al |-> Z,
     fx |-> [q \in 1..T |-> [j \in 1..M |-> 0]], fy |-> [q \in 1..T |-> [j \in 1..M |-> 0]], dt |-> [q \in 1..Len(counts) |-> 1]]
Probes(b) == LET T == Total(b.counts) IN
    IF T <= 7 THEN [j \in 1..(4 * T) |-> Glide(b.counts, NMods(b.drive), 1 + (j - 1) \div T, (j - 1) % T)]
    \* long ones (the default of 40 intervals per segment): four places
    ELSE [j \in 1..4 |-> Glide(b.counts, NMods(b.drive), j, (7 * n + 13 * j) % T)]

Made    == {g \in 0..3 : w.g[g].made}
Idle    == {g \in Made : ~Solving(w.g[g])}
Running == {g \in Made : Solving(w.g[g])}
Ready   == {b \in 0..2 : Complete(w.b[b])}
Kept    == {r \in 0..3 : w.kept[r] # -2}
\* kept results remember their generator's layout: only one generator keeps into register g
Kinds == CASE Mix = "cancel"  -> <<"new", "start", "start", "start", "iter", "iter", "iter", "iter", "cancel", "cancel", "finish", "finish", "move", "adv", "adv", "cb">>
           [] Mix = "deliver" -> <<"new", "start", "start", "iter", "iter", "iter", "iter", "iter", "iter", "adv", "adv", "adv", "adv", "adv", "finish", "cb", "move", "cancel">>
           [] Mix = "result"  -> <<"new", "start", "start", "iter", "iter", "finish", "finish", "keep", "kept", "move", "cancel", "cb">>
           [] Mix = "repeat" -> <<"new", "start", "start", "start", "iter", "iter", "iter", "iter", "finish", "finish", "finish", "finish", "adv", "adv", "cb", "move", "probe", "keep", "kept">>
           [] Mix = "redraw" -> <<"new", "new", "turn", "turn", "turn", "turn", "guess", "guess", "fresh", "fresh", "build", "start", "finish">>
           [] Mix = "storm" -> <<"new", "new", "new", "start", "start", "iter", "finish", "finish", "cancel", "cb", "move", "build">>
           [] Mix = "snapshot" -> <<"new", "new", "start", "iter", "finish", "keep", "kept", "move", "build", "build", "build", "build", "probe", "probe", "probe", "query", "query", "fresh", "iter", "adv", "cb">>
Codes == <<-7, -6, -5, -4, -3, -2, -1, 0, 0, 0, 0, 0, 1, 1, 1, 2>>
\* the same places in another direction
Turn(b) == [op |-> "wpt_guess", b |-> b, i |-> Pick(0..2), p |-> <<0, 5, [deg |-> 15 * Pick(-12..12)]>>]
AskGuess(b) == IF Complete(w.b[b]) THEN [op |-> "q_guess", b |-> b] ELSE [op |-> "q_cbs", b |-> b]
GP(z) == <<Pick(0..1), 2, [deg |-> 90 * Pick(0..3)]>>
Build(z) == LET b == Pick(0..2)  k == Pick(1..9) IN
    CASE k = 1 -> [op |-> "wpt_con", b |-> b, i |-> Pick(0..2), c |-> Lane(Pick(1..4))]
      [] k = 2 -> [op |-> "seg_con", b |-> b, i |-> 0, j |-> Pick(1..2), c |-> Lane(Pick(1..4))]
      [] k = 3 -> [op |-> "counts", b |-> b, ns |-> [q \in 1..(IF Len(w.b[b].wpts) = 0 THEN 0 ELSE Len(w.b[b].wpts) - 1) |-> Pick(1..3)]]
      [] k = 4 -> [Drives[Pick(1..2)] EXCEPT !.b = b]
      [] k = 5 -> [op |-> "copy_builder", b |-> b, from |-> Pick(0..2)]
      [] k \in {7, 8} -> Turn(b)
      [] k = 9 -> IF Len(w.b[b].wpts) < 2 THEN Drives[1]
                  ELSE [op |-> "seg_guess", b |-> b, i |-> Pick(0..(Len(w.b[b].wpts) - 2)), pts |-> PickFrom(<<(<<>>), <<GP(0)>>, <<GP(0), GP(1)>>>>)]
      [] k = 6 -> [op |-> "wpt_guess", b |-> b, i |-> Pick(0..2), p |-> <<Pick(-9..9), Pick(-9..9), [deg |-> 15 * Pick(-9..9)]>>]
Handle(g) == Pick({[op |-> "new_gen", g |-> g, b |-> Pick(Ready)], [op |-> "new_gen", g |-> g, b |-> Pick(Ready), handle |-> Pick(0..11)]})
Nop == [op |-> "adv", d |-> 1]
Cmd(kind) ==
    CASE kind = "new"   -> LET free == {g \in 0..3 : g \notin Running /\ w.kept[g] = -2} IN IF free = {} \/ Ready = {} THEN Nop ELSE Handle(Pick(free))
      [] kind = "start" -> IF Idle = {} THEN Nop ELSE [op |-> "start", g |-> Pick(Idle), diag |-> Pick({TRUE, FALSE})]
      [] kind = "iter"  -> LET can == Running \ stop IN IF can = {} THEN Nop ELSE [op |-> "iter", g |-> Pick(can), tag |-> IF tag % 3 = 0 THEN -1000 - tag ELSE tag]
      [] kind = "cancel" -> [op |-> "cancel"]
      [] kind \in {"finish", "keep"} ->
             IF Running = {} THEN Nop ELSE
             LET g == Pick(Running)  code == IF g \in stop \cup asked THEN 2 ELSE PickFrom(Codes) IN
             [op |-> IF kind = "keep" /\ code \in SuccessCodes /\ w.g[g].tag # 0 THEN "finish_keep" ELSE "finish",
              g |-> g, r |-> g, code |-> code, cost |-> Pick(-3..3), kind |-> Pick(0..4)]
      [] kind = "kept"  -> IF Kept = {} THEN Nop ELSE LET r == Pick(Kept) IN [op |-> "kept_tag", g |-> r, r |-> r]
      [] kind = "move"  -> IF Idle = {} THEN Nop ELSE [op |-> "move_gen", g |-> Pick(Idle)]
      [] kind = "adv"   -> [op |-> "adv", d |-> PickFrom(<<1, 50, 83, 84, 100, 166, 166, 167, 167, 168, 250, 334, 1000, 600000, 36000000>>)]
      [] kind = "cb"    -> [op |-> "cb", b |-> PickFrom(<<0, 0, 1>>), id |-> n, takes |-> Pick({0, 30, 100, 167, 400}), nests |-> Mix \notin {"cancel", "storm"} /\ Pick(1..4) = 1, asks |-> Mix = "cancel" /\ Pick(1..3) = 1]
      [] kind = "turn"  -> Turn(Pick(0..2))
      [] kind = "guess" -> AskGuess(Pick(0..2))
      [] kind = "build" -> Build(0)
      [] kind = "probe" -> LET can == IF Running = {} THEN Made ELSE Running IN
                           IF can = {} THEN Nop ELSE LET g == Pick(can) IN [op |-> "probe", g |-> g, trajs |-> Probes(w.g[g].b)]
      [] kind = "query" -> LET b == Pick(0..2) IN Pick({[op |-> "q_path", b |-> b, lanes |-> 4, targets |-> 1], [op |-> "q_counts", b |-> b], [op |-> "q_drive", b |-> b], AskGuess(b)})
      \* what a generator that has not solved anything yet starts from
      [] kind = "fresh" -> LET can == Idle \ used IN IF can = {} THEN Nop ELSE [op |-> "q_start", g |-> Pick(can)]
\* what there is something to do it to
Can(kind) ==
    CASE kind = "new"   -> {g \in 0..3 : g \notin Running /\ w.kept[g] = -2} # {} /\ Ready # {}
      [] kind \in {"start", "move"} -> Idle # {}
      [] kind = "iter"  -> Running \ stop # {}
      [] kind \in {"finish", "keep"} -> Running # {}
      [] kind = "kept"  -> Kept # {}
      [] kind = "probe" -> Made # {}
      [] kind = "fresh" -> Idle \ used # {}
      [] OTHER -> TRUE
Kind(z) == PickFrom(SelectSeq(Kinds, Can))
Init == /\ w = After(World0, Setup) /\ hist = Setup /\ n = 0 /\ tag = 1 /\ stop = {} /\ asked = {} /\ used = {} /\ done = FALSE
Op == /\ n < Ops
      /\ \E kind \in {IF n < 6 /\ Mix \in {"deliver", "repeat"} /\ Pick(1..3) > 1 THEN "cb" ELSE Kind(0)} : \E c \in {TLCEval(Cmd(kind))} :
           /\ w' = Step(w, c, c.op = "iter" /\ w.g[c.g].b.asks)
           /\ hist' = Append(hist, c)
           /\ tag' = tag + 1
           \* the solver ends where it was told to stop
           /\ stop' = (stop \cup (IF c.op = "iter" /\ w.g[c.g].canc THEN {c.g} ELSE {}))
                      \ (IF c.op \in {"finish", "finish_keep"} THEN {c.g} ELSE {})
           /\ asked' = (asked \cup (IF c.op = "iter" /\ w.g[c.g].b.asks THEN {c.g} ELSE {}))
                       \ (IF c.op \in {"finish", "finish_keep"} THEN {c.g} ELSE {})
           /\ used' = CASE c.op = "new_gen" -> used \ {c.g} [] c.op \in {"start", "probe"} -> used \cup {c.g} [] OTHER -> used
      /\ n' = n + 1 /\ UNCHANGED done
\* those that are idle then all run freely
Storm(G) == IF Mix # "storm" \/ G = {} THEN <<>> ELSE <<[op |-> "storm", gs |-> Enumerate(G), when |-> PickFrom(<<0, 1, 10, 1000>>)]>>
Fin == n = Ops /\ ~done /\ done' = TRUE /\ EmitCmds(hist \o Storm(Idle)) /\ UNCHANGED <<w, hist, n, tag, stop, asked, used>>
Next == Op \/ Fin
Spec == Init /\ [][Next]_vars
===============================================================================
