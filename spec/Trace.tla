------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Checks recorded executions of the implementation (one per line of the   *)
(* file named by the environment variable TRACE) against Contract.tla. The *)
(* state S of the model follows the recorded changes of the stores; every  *)
(* step has to be allowed by the properties in PROPS (comma separated).    *)
(* Every trace is a behaviour of its own: TLC explores all of them.        *)
(***************************************************************************)
EXTENDS Contract, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
Props == IF "PROPS" \in DOMAIN IOEnv /\ IOEnv.PROPS # "ALL" THEN {IOEnv.PROPS} ELSE StepProps

VARIABLES t,    \* the trace,
          l,    \* the number of steps that were taken,
          S,    \* the state of all stores,
          bad   \* properties that the last step violates.
vars == <<t, l, S, bad>>

Ctx == [i \in DOMAIN Traces |-> [metric |-> Traces[i].metric, dps |-> Traces[i].dps, exact |-> FALSE, odd |-> Traces[i].odd]]

\* The state after a step: changed stores are recorded completely.
Apply(T, s) ==
    LET ch == {s.post[i].st : i \in DOMAIN s.post}
        new(st) == LET i == CHOOSE i \in DOMAIN s.post : s.post[i].st = st IN
                   [node |-> s.post[i].node, ns |-> s.post[i].ns, kind |-> s.post[i].kind,
                    v |-> s.post[i].v, g |-> s.post[i].g]
    IN  [st \in (DOMAIN T \cup ch) \ Range(s.drop) |-> IF st \in ch THEN new(st) ELSE T[st]]

Init == /\ t \in DOMAIN Traces
        /\ l = 0
        /\ S = <<>>
        /\ bad = {}

Next == /\ bad = {}
        /\ l < Len(Traces[t].steps)
        /\ l' = l + 1
        /\ t' = t
        /\ LET s == Traces[t].steps[l + 1]
               Q == IF s.err = "panic" THEN S ELSE Apply(S, s)
           IN  /\ S' = Q
               /\ bad' = Fails(Props, Ctx[t], s, S, Q)
               /\ bad' # {} => PrintT(<<"FAIL", t, l + 1, s.op, bad'>>)

Spec == Init /\ [][Next]_vars

Conforms == bad = {}
View == <<t, l, bad>>
Short == [t |-> t, l |-> l, bad |-> bad]
=============================================================================
