-------------------------------- MODULE GenIO --------------------------------
(* Writing generated behaviours (one JSON object per line) and small helpers   *)
(* for generators.  TLC evaluates a definition without parameters once and for  *)
(* all, and a LET of an action at every mention: what draws random values has a  *)
(* (dummy) parameter, and drawn values are bound by \E.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Randomization
Emit(v) == Serialize(ToJson(v) \o "\n", IOEnv.OUT,
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
EmitCmds(cmds) == Emit([cmds |-> cmds])
RECURSIVE Enumerate(_)
Enumerate(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o Enumerate(S \ {x})
Pick(S) == RandomElement(S)
PickFrom(seq) == seq[RandomElement(1..Len(seq))]
===============================================================================
