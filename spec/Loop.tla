-------------------------------- MODULE Loop --------------------------------
(***************************************************************************)
(* The event loop (C18). In each loop it goes through its tasks, and runs  *)
(* those whose interval says so. A run of a local task is one request per  *)
(* namespace of the local node; a run of load balancing is described in    *)
(* Balance.tla.                                                            *)
(*                                                                         *)
(* The first part is what must hold for the requests in each loop. The     *)
(* second part describes the loop as a transition system (counter,         *)
(* position among the tasks, stop) and is checked against the first part   *)
(* by TLC (LoopAlg.tla).                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Range(f) == {f[i] : i \in DOMAIN f}

\* Interval over which a task never runs.
Never == 1000

\* A task with interval k runs in loop i (0 is the first).
Runs(k, i, never) ==
    LET e == IF k < 1 THEN 1 ELSE k
    IN  i >= 0 /\ e <= never /\ i % e = 0

Async == {"expire", "memtrim", "distI", "split", "merge"}
Dist  == {"distF", "distA"}
Tasks == Async \cup Dist \cup {"steal"}

----------------------------------------------------------------------------
(* What is recorded: s is an execution, g a segment of it (what happens    *)
(* between two calls of LogMeta, which is done once in each loop), c a     *)
(* request. g.holders are the nodes and what they hold, as it changed      *)
(* during the segment, and c.e the number of these that had happened.      *)

Calls(g, t) == {j \in DOMAIN g.calls : g.calls[j].task = t}

Holders(g, e, ns) == LET H == {h \in Range(g.holders[e]) : h.ns = ns}
                     IN  UNION {{x.node : x \in Range(h.at)} : h \in H}
\* Since the run of a task began.
Since(g, t, c) == LET j == CHOOSE j \in Calls(g, t) : \A k \in Calls(g, t) : j <= k IN g.calls[j].e..c.e

\* A request of a local task has the configured arguments, and goes to the
\* local node.
CallOk(s, g, t, c) ==
    /\ c.node = s.local
    /\ c.ns \in Range(g.local)
    /\ c.a = s.tasks[t].a
    /\ c.b = s.tasks[t].b
    /\ t \in Dist => /\ \E e \in Since(g, t, c) : Range(c.addrs) = Holders(g, e, c.ns)
                     /\ Len(c.addrs) = Cardinality(Range(c.addrs))

\* Whether the task is run in the segment as it should be.
TaskOk(s, g, t, off) ==
    LET J == Calls(g, t)
        run == Runs(s.tasks[t].k, g.i + off, Never)
    IN  IF ~run THEN J = {}
        ELSE IF t = "steal" THEN J # {}  \* The amounts are such that one is needed.
        ELSE /\ \A j \in J : CallOk(s, g, t, g.calls[j])
             /\ {g.calls[j].ns : j \in J} = Range(g.local)
             /\ Cardinality(J) = Len(g.local)

\* The position of LogMeta among the tasks is not specified: a task is run
\* before or after it in each loop.
IntervalsOk(s) ==
    \A t \in Tasks : \E off \in {0, 1} : \A j \in DOMAIN s.segs : TaskOk(s, s.segs[j], t, off)

NothingElse(s) ==
    \A j \in DOMAIN s.segs : \A k \in DOMAIN s.segs[j].calls : s.segs[j].calls[k].task \in Tasks

\* Only the local node takes points.
StealsOk(s) ==
    \A j \in DOMAIN s.segs : \A k \in Calls(s.segs[j], "steal") :
        LET c == s.segs[j].calls[k] IN c.node = s.local /\ c.from # s.local /\ \E e \in 1..c.e : c.from \in Holders(s.segs[j], e, c.ns)

RECURSIVE SumOf(_)
SumOf(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN x[2] + SumOf(S \ {x})

\* The content that is logged in a loop is that of the nodes as it was in the
\* segment before (before the nodes are changed, in the same call).
MetaOk(s) ==
    \A j \in DOMAIN s.segs : s.segs[j].i >= 0 =>
        LET M == s.segs[j].meta
            prev == s.segs[j - 1]
            nodes == IF s.localOnly THEN {s.local} ELSE Range(s.remotes)
            Amounts(n) == UNION {{<<h.ns, x.n>> : x \in {y \in Range(h.at) : y.node = n}} : h \in Range(prev.holders[Len(prev.holders)])}
        IN  /\ {m.node : m \in Range(M)} = nodes
            /\ Len(M) = Cardinality(nodes)
            /\ \A m \in Range(M) :
                 LET A == Amounts(m.node) IN m.nss = Cardinality(A) /\ m.dp = SumOf(A)

\* After it was stopped at position pos no further task is started. The
\* requests of the task that is being run might follow, and those that the
\* loop does not wait for might arrive late, but not twice.
TailOk(s) ==
    s.valid =>
        IF s.how # "call" THEN s.tail = <<>>
        ELSE /\ \A j \in DOMAIN s.tail : j > s.pos => s.tail[j].task \in Async \cup {s.current}
             /\ \A j, k \in DOMAIN s.tail : s.tail[j].task \in Async /\ s.tail[k].task = s.tail[j].task
                                               /\ s.tail[k].ns = s.tail[j].ns => j = k

LoopBad(s) ==
    (IF IntervalsOk(s) THEN {} ELSE {"intervals"}) \cup (IF NothingElse(s) THEN {} ELSE {"other"})
    \cup (IF StealsOk(s) THEN {} ELSE {"steals"}) \cup (IF MetaOk(s) THEN {} ELSE {"meta"})
    \cup (IF TailOk(s) THEN {} ELSE {"stop"})
=============================================================================
