------------------------------ MODULE MC_Lifecycle ------------------------------
(* Concurrent generations as the code does them - one process-wide flag that every *)
(* start clears and every iteration polls, one time stamp per generator - against   *)
(* the promises of World: who is stopped, who is called back when (C11, C13, C14).  *)
EXTENDS World, TLC
CONSTANTS Gens, Advances, MaxNow, MaxOps,
          Slow,       \* how long callbacks take
          Asks,       \* TRUE: callbacks request cancellation
          StampAfter  \* TRUE: stamp the frame when they are done (which misses deliveries)
VARIABLES w,       \* the promised state
          flag,    \* the code's cancellation flag
          frame,   \* per generator: time stamp of the last frame
          seen,    \* what the last iteration did: [g, stop, del] or <<>>
          n
vars == <<w, flag, frame, seen, n>>

Quiet == [g |-> -1, stop |-> FALSE, del |-> FALSE, canc |-> FALSE, lost |-> FALSE, may |-> TRUE, must |-> FALSE]
Init == w = [World0 EXCEPT !.g = [i \in 0..3 |-> IF i < Gens THEN [NoGen EXCEPT !.made = TRUE, !.b.slow = Slow, !.b.asks = Asks] ELSE NoGen]]
        /\ flag = FALSE /\ frame = [i \in 0..3 |-> 0] /\ seen = Quiet /\ n = 0
Start(g) == /\ ~Solving(w.g[g])
            /\ w' = Step(w, [op |-> "start", g |-> g, diag |-> FALSE], FALSE)
            /\ flag' = FALSE /\ frame' = [frame EXCEPT ![g] = w.now] /\ seen' = Quiet
Iter(g)  == /\ Solving(w.g[g])
            /\ LET d == Frame(w.now - frame[g]) IN
               /\ d => w.now + Slow <= MaxNow
               /\ w' = Step(w, [op |-> "iter", g |-> g, tag |-> 1], d)
               /\ frame' = [frame EXCEPT ![g] = IF d THEN IF StampAfter THEN w.now + Slow ELSE w.now ELSE @]
               /\ seen' = [g |-> g, stop |-> flag \/ (d /\ Asks), del |-> d, canc |-> w.g[g].canc, lost |-> w.g[g].lost,
                           may |-> MayDeliver(w.g[g], w.now), must |-> MustDeliver(w.g[g], w.now)]
               /\ flag' = (flag \/ (d /\ Asks))
Cancel   == w' = Step(w, [op |-> "cancel"], FALSE) /\ flag' = TRUE /\ seen' = Quiet /\ UNCHANGED frame
Finish(g) == /\ Solving(w.g[g]) /\ w' = Step(w, [op |-> "finish", g |-> g, code |-> 0], FALSE)
             /\ seen' = Quiet /\ UNCHANGED <<flag, frame>>
Adv      == \E d \in Advances : w.now + d <= MaxNow /\ w' = Step(w, [op |-> "adv", d |-> d], FALSE)
                                 /\ seen' = Quiet /\ UNCHANGED <<flag, frame>>
Next == n < MaxOps /\ n' = n + 1 /\ (Cancel \/ Adv \/ \E g \in 0..(Gens - 1) : Start(g) \/ Iter(g) \/ Finish(g))
Spec == Init /\ [][Next]_vars

\* a generation nobody cancelled is never stopped; a cancelled one is, except for
\* the recorded finding (a request wiped out by a later start)
NeverPoisoned == seen.stop => seen.canc \/ (Asks /\ seen.del)
AlwaysStopped == seen.canc /\ ~seen.lost => seen.stop
\* the finding is real: this is violated (the check demands it)
AlwaysStoppedIdeal == seen.canc => seen.stop
NotTooSoon  == seen.del => seen.may
NeverMissed == seen.must => seen.del
\* every step is one of Lifecycle's, whose promises Apalache proves for any number of
\* steps and any times
Of(F(_)) == [i \in 0..(Gens - 1) |-> F(w.g[i])]
Abs == INSTANCE Lifecycle WITH
    Gs <- 0..(Gens - 1), now <- w.now,
    run <- Of(LAMBDA g : IF Solving(g) THEN "solving" ELSE "idle"),
    canc <- Of(LAMBDA g : g.canc), lost <- Of(LAMBDA g : g.lost),
    first <- Of(LAMBDA g : g.first), last <- Of(LAMBDA g : g.last), frame <- [i \in 0..(Gens - 1) |-> frame[i]],
    seen <- [g |-> IF seen.g < 0 THEN 0 ELSE seen.g, polled |-> seen.g >= 0, stop |-> seen.stop, framed |-> seen.g >= 0,
             del |-> seen.del, may |-> seen.may, must |-> seen.must]
AbsStep == \/ Abs!Cancel \/ \E d \in Advances : Abs!Adv(d)
           \/ \E g \in 0..(Gens - 1) : Abs!Start(g) \/ Abs!Finish(g) \/ Abs!Iter(g, Slow, Asks)
Refines == Abs!Init /\ [][AbsStep]_vars
===============================================================================
