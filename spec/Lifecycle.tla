-------------------------------- MODULE Lifecycle --------------------------------
(* Several generations, one cancellation flag, one time stamp each, in as few words  *)
(* as possible: callbacks take any time, and anything may happen while they run.     *)
(* Apalache proves Good inductive (any number of steps, any times); TLC checks that  *)
(* MC_Lifecycle, which speaks World's language, behaves like this.                   *)
EXTENDS Integers
CONSTANT
  \* @type: Set(Int);
  Gs
VARIABLES
  \* @type: Int;
  now,
  \* @type: Bool;
  flag,
  \* idle, solving, or calling (between the frame and the poll of an iteration)
  \* @type: Int -> Str;
  run,
  \* @type: Int -> Bool;
  canc,
  \* @type: Int -> Bool;
  lost,
  \* @type: Int -> Int;
  first,
  \* @type: Int -> Int;
  last,
  \* @type: Int -> Int;
  frame,
  \* the last thing an iteration did
  \* @type: {g: Int, polled: Bool, stop: Bool, framed: Bool, del: Bool, may: Bool, must: Bool};
  seen
vars == <<now, flag, run, canc, lost, first, last, frame, seen>>

Over(d) == d >= 167
Runs(g) == run[g] # "idle"
Quiet == [g |-> 0, polled |-> FALSE, stop |-> FALSE, framed |-> FALSE, del |-> FALSE, may |-> TRUE, must |-> FALSE]
May(g)  == last[g] < 0 \/ Over(now - last[g])
Must(g) == IF last[g] >= 0 THEN Over(now - last[g]) ELSE first[g] >= 0 /\ Over(now - first[g])

Init == /\ now = 0 /\ flag = FALSE /\ run = [g \in Gs |-> "idle"]
        /\ canc = [g \in Gs |-> FALSE] /\ lost = [g \in Gs |-> FALSE]
        /\ first = [g \in Gs |-> -1] /\ last = [g \in Gs |-> -1] /\ frame = [g \in Gs |-> 0]
        /\ seen = Quiet
Start(g) == /\ ~Runs(g)
            /\ run' = [run EXCEPT ![g] = "solving"]
            /\ canc' = [canc EXCEPT ![g] = FALSE]
            \* the flag is everybody's: a request not seen yet is wiped out
            /\ lost' = [h \in Gs |-> IF h = g THEN FALSE ELSE lost[h] \/ (Runs(h) /\ canc[h])]
            /\ first' = [first EXCEPT ![g] = -1] /\ last' = [last EXCEPT ![g] = -1]
            /\ frame' = [frame EXCEPT ![g] = now] /\ flag' = FALSE /\ seen' = Quiet /\ UNCHANGED now
Asked == [h \in Gs |-> canc[h] \/ Runs(h)]
Found == [h \in Gs |-> lost[h] /\ ~Runs(h)]
Cancel == flag' = TRUE /\ canc' = Asked /\ lost' = Found /\ seen' = Quiet /\ UNCHANGED <<now, run, first, last, frame>>
Frame(g, d) == /\ first' = [first EXCEPT ![g] = IF @ < 0 THEN now ELSE @]
               /\ last'  = [last EXCEPT ![g] = IF d THEN now ELSE @]
               /\ frame' = [frame EXCEPT ![g] = IF d THEN now ELSE @]
\* an iteration at once, its callbacks taking time t and requesting cancellation or not
Iter(g, t, ask) ==
    LET d == Over(now - frame[g]) IN
    /\ run[g] = "solving" /\ Frame(g, d) /\ UNCHANGED run
    /\ now' = IF d THEN now + t ELSE now
    /\ flag' = (flag \/ (d /\ ask))
    /\ canc' = IF d /\ ask THEN Asked ELSE canc
    /\ lost' = IF d /\ ask THEN Found ELSE lost
    /\ seen' = [g |-> g, polled |-> TRUE, stop |-> flag', framed |-> TRUE, del |-> d, may |-> May(g), must |-> Must(g)]
\* or in two steps with others' between
Begin(g) == /\ run[g] = "solving" /\ Frame(g, Over(now - frame[g]))
            /\ run' = [run EXCEPT ![g] = "calling"]
            /\ seen' = [g |-> g, polled |-> FALSE, stop |-> FALSE, framed |-> TRUE, del |-> Over(now - frame[g]), may |-> May(g), must |-> Must(g)]
            /\ UNCHANGED <<now, flag, canc, lost>>
Poll(g)  == /\ run[g] = "calling" /\ run' = [run EXCEPT ![g] = "solving"]
            /\ seen' = [g |-> g, polled |-> TRUE, stop |-> flag, framed |-> FALSE, del |-> FALSE, may |-> TRUE, must |-> FALSE]
            /\ UNCHANGED <<now, flag, canc, lost, first, last, frame>>
Finish(g) == run[g] = "solving" /\ run' = [run EXCEPT ![g] = "idle"] /\ seen' = Quiet
             /\ UNCHANGED <<now, flag, canc, lost, first, last, frame>>
Adv(d) == now' = now + d /\ seen' = Quiet /\ UNCHANGED <<flag, run, canc, lost, first, last, frame>>
Next == \/ Cancel \/ \E d \in Nat : Adv(d)
        \/ \E g \in Gs : Start(g) \/ Begin(g) \/ Poll(g) \/ Finish(g) \/ \E t \in Nat, ask \in BOOLEAN : Iter(g, t, ask)
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------- what is promised
NeverPoisoned == seen.polled /\ seen.stop => canc[seen.g]
AlwaysStopped == seen.polled /\ canc[seen.g] /\ ~lost[seen.g] => seen.stop
NotTooSoon    == seen.framed /\ seen.del => seen.may
NeverMissed   == seen.framed /\ seen.must => seen.del
Promises == NeverPoisoned /\ AlwaysStopped /\ NotTooSoon /\ NeverMissed
\* without the finding (a start that wipes out a request) it is not inductive
AlwaysStoppedIdeal == seen.polled /\ canc[seen.g] => seen.stop
NotGood == AlwaysStoppedIdeal

\* ---------------------------------------------------------------------- why
Stamps == \A g \in Gs : Runs(g) =>
    /\ frame[g] <= now /\ first[g] <= now /\ last[g] <= now
    /\ (last[g] >= 0 => frame[g] = last[g])
    /\ (last[g] < 0 /\ first[g] >= 0 => frame[g] <= first[g])
Flags == \A g \in Gs : Runs(g) => (flag <=> (canc[g] /\ ~lost[g]))
Good == Stamps /\ Flags /\ Promises
\* any state of the right shape in which Good holds
Any == /\ now \in Nat /\ flag \in BOOLEAN
       /\ run \in [Gs -> {"idle", "solving", "calling"}]
       /\ canc \in [Gs -> BOOLEAN] /\ lost \in [Gs -> BOOLEAN]
       /\ first \in [Gs -> Int] /\ last \in [Gs -> Int] /\ frame \in [Gs -> Int]
       /\ \E g \in Gs, a, b, c, d, e, f \in BOOLEAN : seen = [g |-> g, polled |-> a, stop |-> b, framed |-> c, del |-> d, may |-> e, must |-> f]
       /\ Good
CInit == Gs = 0..3
===============================================================================
