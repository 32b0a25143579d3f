----------------------------- MODULE TraceLife ------------------------------
(* Checks recorded starts, stops and requests against Life.tla.             *)
EXTENDS Life, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, S, ok
vars == <<t, l, S, ok>>
Init == t \in DOMAIN Traces /\ l = 0 /\ ok = TRUE /\ S = Empty
Next == /\ ok
        /\ l < Len(Traces[t].steps)
        /\ l' = l + 1
        /\ t' = t
        /\ LET s == Traces[t].steps[l + 1] IN
           /\ ok' = Ok(S, s)
           /\ S' = IF ok' THEN After(S, s) ELSE S
           /\ ~ok' => PrintT(<<"FAIL", t, l + 1, s.op, {IOEnv.PROPS}>>)
Spec == Init /\ [][Next]_vars
Conforms == ok
=============================================================================
