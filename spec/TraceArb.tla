------------------------------ MODULE TraceArb ------------------------------
(* Checks recorded session operations against Arbiter.tla.                  *)
EXTENDS Arbiter, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, M, ok
vars == <<t, l, M, ok>>
Init == t \in DOMAIN Traces /\ l = 0 /\ ok = TRUE /\ M = <<>>

Reached(s) == M[s.m].up
Gone(s) == s.status = 0  \* (nothing was reached)

StepOk(s) ==
    CASE s.op \in {"member", "reach"} -> TRUE
      [] s.op = "errs" -> ErrsOk(s)
      [] s.op = "stats" -> StatsOk(s)
      [] s.op = "elect" -> ElectOk(M, s)
      [] ~Reached(s) -> Gone(s)
      [] s.op = "init" -> s.status \in InitReplies(M[s.m], s)
      [] s.op = "vote" -> VoteOk(M[s.m], s)
      [] s.op = "collect" -> s.status \in CollectReplies(M, s.m, s)
      [] s.op = "arbiter" -> ArbiterOk(M[s.m], s)

Set(m, x) == [y \in DOMAIN M \cup {m} |-> IF y = m THEN x ELSE M[y]]

After(s) ==
    CASE s.op = "member" -> Set(s.m, Ready(s))
      [] s.op = "reach" -> Set(s.m, [M[s.m] EXCEPT !.up = s.up])
      [] s.op \in {"errs", "stats"} -> M
      [] s.op = "elect" -> AfterElect(M, s)
      [] ~Reached(s) -> M
      [] s.op = "init" -> IF s.status = OK THEN Set(s.m, AfterInit(M[s.m], s)) ELSE M
      [] s.op = "vote" -> Set(s.m, AfterVote(M[s.m], s))
      [] s.op = "collect" -> Set(s.m, AfterCollect(M, s.m, s))
      [] s.op = "arbiter" -> Set(s.m, AfterArbiter(M[s.m], s))

Next == /\ ok
        /\ l < Len(Traces[t].steps)
        /\ l' = l + 1
        /\ t' = t
        /\ LET s == Traces[t].steps[l + 1] IN
           /\ ok' = StepOk(s)
           /\ IF ok' THEN M' = After(s) ELSE M' = M /\ PrintT(<<"FAIL", t, l + 1, s.op, {"C23"}>>)
Spec == Init /\ [][Next]_vars
Conforms == ok
=============================================================================
