-------------------------------- MODULE GenLang --------------------------------
(* Writing behaviours as calls of the C++ interface or, where they have a          *)
(* counterpart there, of the Rust interface.                                       *)
EXTENDS RustApi, GenIO
\* The numbers of a behaviour are in units of their own (powers of two of metres,
\* seconds and kilograms): what is allowed does not depend on the units.  What a
\* generation starts from does, as it takes 5 s.
Lasts(cmds) == \E k \in 1..Len(cmds) : cmds[k].op \in {"q_start", "assign_finish"}
\* (small units of everything at once would drown in what rounding leaves of the numbers)
UnitsOf(cmds) == CHOOSE u \in {[op |-> "units", l |-> l,
                t |-> IF Lasts(cmds) THEN 0 ELSE IF l < -6 THEN PickFrom(<<0, 0, -5, -1>>) ELSE PickFrom(<<0, 0, 0, -5, -1, 4>>),
                m |-> IF l < -6 THEN PickFrom(<<0, 0, 5>>) ELSE PickFrom(<<0, 0, 0, -4, 5>>)]
                : l \in {PickFrom(<<0, 0, 0, 0, -16, -10, -6, -4, -2, 3, 9>>)}} : TRUE
\* Guesses near and far, for some of the waypoints 0..S or all of them: what is allowed
\* does not depend on where the solver is told to start.
Guesses(n, S) == TLCEval([k \in 1..n |-> 
        [op |-> "wpt_guess", i |-> IF n = S + 1 THEN k - 1 ELSE Pick(0..S),
         p |-> CHOOSE at \in {<<Pick((-d)..d), Pick((-d)..d), [deg |-> 15 * Pick(-12..12)]>> : d \in {PickFrom(<<5, 900, 30000>>)}} : TRUE]])
Away(S) == CHOOSE a \in {Guesses(n, S) : n \in {PickFrom(<<0, 1, S + 1, 2 * S + 2>>)}} : TRUE
EmitUnits(cmds) == EmitCmds(<<UnitsOf(cmds)>> \o cmds)
EmitIn(lang, cmds) == IF lang = "rust" THEN EmitCmds(Translated(SelectSeq(cmds, LAMBDA c : c.op # "cost"))) ELSE EmitUnits(cmds)
===============================================================================
