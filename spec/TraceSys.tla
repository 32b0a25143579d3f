------------------------------ MODULE TraceSys ------------------------------
(* Checks recorded histories of whole systems against Sys.tla.             *)
EXTENDS Sys, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, ok
vars == <<t, l, ok>>
StepOk(s) == /\ Len(s.bad) = 0
             /\ SysOk(s)
Init == t \in DOMAIN Traces /\ l = 0 /\ ok = TRUE
Next == /\ ok
        /\ l < Len(Traces[t].steps)
        /\ l' = l + 1
        /\ t' = t
        /\ LET s == Traces[t].steps[l + 1] IN
           /\ ok' = StepOk(s)
           /\ ~ok' => PrintT(<<"FAIL", t, l + 1, s.op, {IOEnv.PROPS}>>)
Spec == Init /\ [][Next]_vars
Conforms == ok
=============================================================================
