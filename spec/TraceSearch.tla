---------------------------- MODULE TraceSearch -----------------------------
(* Checks recorded searches of the implementation against Search.tla.       *)
EXTENDS Search, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, ok
vars == <<t, l, ok>>
Init == t \in DOMAIN Traces /\ l = 0 /\ ok = TRUE
Next == /\ ok
        /\ l < Len(Traces[t].steps)
        /\ l' = l + 1
        /\ t' = t
        /\ LET s == Traces[t].steps[l + 1] IN
           /\ ok' = StepOk(s)
           /\ ~ok' => PrintT(<<"FAIL", t, l + 1, s.op, {"C07"}>>)
Spec == Init /\ [][Next]_vars
Conforms == ok
=============================================================================
