--------------------------------- MODULE World ---------------------------------
(***************************************************************************)
(* The whole library as its users see it: builders, generators made from    *)
(* them, generations running on threads of their own, a clock, the          *)
(* cancellation request.  Do(w, c) is the state after command c; what may   *)
(* be observed is said in Trace_World.  Time is in tenths of milliseconds.  *)
(***************************************************************************)
EXTENDS Robot, Guess

NoGen == [made |-> FALSE, b |-> EmptyBuilder, handle |-> 0, run |-> "idle", canc |-> FALSE, lost |-> FALSE,
          first |-> -1, last |-> -1, tag |-> 0, runs |-> 0]
NoTraj == <<>>
World0 == [b |-> [i \in 0..2 |-> EmptyBuilder], g |-> [i \in 0..3 |-> NoGen], kept |-> [i \in 0..3 |-> -2], now |-> 0]

\* 1/60 s lies between 166 and 167 tenths of a millisecond
Frame(d) == d >= 167

B(c) == IF "b" \in DOMAIN c THEN c.b ELSE 0

GenStart(g)  == [g EXCEPT !.run = "solving", !.canc = FALSE, !.lost = FALSE, !.first = -1, !.last = -1, !.runs = @ + 1]
\* one solver iteration, delivering or not
GenIter(g, tag, now, deliver) ==
    [g EXCEPT !.tag = tag, !.first = IF @ < 0 THEN now ELSE @, !.last = IF deliver THEN now ELSE @]
MayDeliver(g, now)  == g.last < 0 \/ Frame(now - g.last)
MustDeliver(g, now) == IF g.last >= 0 THEN Frame(now - g.last) ELSE g.first >= 0 /\ Frame(now - g.first)

SuccessCodes == {0, 1}
StopCode == 2

Solving(g) == g.run = "solving"

\* everything that is being solved is to stop
CancelAll(w) == [w EXCEPT !.g = [i \in DOMAIN @ |-> IF Solving(@[i]) THEN [@[i] EXCEPT !.canc = TRUE, !.lost = FALSE] ELSE @[i]]]
Step(w, c, delivered) ==
    CASE c.op \in BuilderOps   -> [w EXCEPT !.b[B(c)] = Do(@, c)]
      [] c.op = "copy_builder" -> [w EXCEPT !.b[B(c)] = w.b[c.from]]
      [] c.op = "new_gen"      -> [w EXCEPT !.g[c.g] = [NoGen EXCEPT !.made = TRUE, !.b = w.b[B(c)],
                                     !.handle = IF "handle" \in DOMAIN c THEN c.handle ELSE 0]]
      \* lost: a later start may have wiped out a request nobody had seen yet
      [] c.op = "start"        -> [w EXCEPT !.g = [i \in DOMAIN @ |->
                                     IF i = c.g THEN GenStart(@[i])
                                     ELSE IF Solving(@[i]) /\ @[i].canc THEN [@[i] EXCEPT !.lost = TRUE] ELSE @[i]]]
      [] c.op = "iter"         -> LET v == [w EXCEPT !.g[c.g] = GenIter(@, c.tag, w.now, delivered),
                                     !.now = @ + (IF delivered THEN w.g[c.g].b.slow ELSE 0)]
                                  IN IF delivered /\ w.g[c.g].b.asks THEN CancelAll(v) ELSE v
      [] c.op = "adv"          -> [w EXCEPT !.now = @ + c.d]
      [] c.op = "cancel"       -> CancelAll(w)
      [] c.op = "finish"       -> [w EXCEPT !.g[c.g].run = "idle"]
      [] c.op = "finish_keep"  -> [w EXCEPT !.g[c.g].run = "idle", !.kept[c.r] = w.g[c.g].tag]
      [] OTHER                 -> w
===============================================================================
