----------------------------- MODULE TraceProg ------------------------------
(* Checks recorded rounds of suspended requests against Progress.tla.       *)
EXTENDS Progress, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, ok
vars == <<t, l, ok>>
Init == t \in DOMAIN Traces /\ l = 0 /\ ok = TRUE
Next == /\ ok
        /\ l < Len(Traces[t].steps)
        /\ l' = l + 1
        /\ t' = t
        /\ LET s == Traces[t].steps[l + 1] IN
           /\ ok' = RoundOk(s)
           /\ ~ok' => PrintT(<<"FAIL", t, l + 1, s.op, {IOEnv.PROPS}>>)
Spec == Init /\ [][Next]_vars
Conforms == ok
=============================================================================
