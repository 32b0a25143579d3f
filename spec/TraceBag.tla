------------------------------ MODULE TraceBag ------------------------------
(* Recorded executions with equal points against Bag.tla.                  *)
EXTENDS Trace
INSTANCE Bag

BagChecked == IF "PROPS" \in DOMAIN IOEnv /\ IOEnv.PROPS # "ALL" THEN {IOEnv.PROPS} ELSE BagProps
BagNext == /\ bad = {}
           /\ l < Len(Traces[t].steps)
           /\ l' = l + 1
           /\ t' = t
           /\ LET s == Traces[t].steps[l + 1]
                  Q == IF s.err = "panic" THEN S ELSE Apply(S, s)
              IN  /\ S' = Q
                  /\ bad' = BagFails(BagChecked, Ctx[t], s, S, Q)
                  /\ bad' # {} => PrintT(<<"FAIL", t, l + 1, s.op, bad'>>)
BagSpec == Init /\ [][BagNext]_vars
=============================================================================
