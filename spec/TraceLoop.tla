------------------------------ MODULE TraceLoop -----------------------------
(* Checks recorded executions of the event loop against Loop.tla and        *)
(* Balance.tla.                                                             *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
L == INSTANCE Loop
B == INSTANCE Balance
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, bad
vars == <<t, l, bad>>
Init == t \in DOMAIN Traces /\ l = 0 /\ bad = {}
Bad(s) == IF s.op = "lb" THEN B!BalanceBad(s)
          ELSE IF IOEnv.PROPS = "C17" THEN L!LoopBad(s) \cap {"steals"} ELSE L!LoopBad(s)
Next == /\ bad = {}
        /\ l < Len(Traces[t].steps)
        /\ l' = l + 1
        /\ t' = t
        /\ LET s == Traces[t].steps[l + 1] IN
           /\ bad' = Bad(s)
           /\ bad' # {} => PrintT(<<"FAIL", t, l + 1, s.op, bad'>>)
Spec == Init /\ [][Next]_vars
Conforms == bad = {}
=============================================================================
