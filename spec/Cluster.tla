------------------------------ MODULE Cluster ------------------------------
(***************************************************************************)
(* Design of the nodes: how concurrent requests use the table and the      *)
(* stores of several nodes, and how points move between them, with nodes   *)
(* that stop answering at any time.                                        *)
(*                                                                         *)
(* One namespace. Each process performs one request: a client's (add,      *)
(* drain, len) or one of an event loop (dist, steal). A request that needs *)
(* another node calls it, which takes the store of that node meanwhile.    *)
(* The vectors are abstracted: where a point goes to, and which group is   *)
(* stolen, is arbitrary.                                                   *)
(*                                                                         *)
(* Checked: points are conserved and known on one node at a time (C03,     *)
(* C12, C16, C24, C25), by the operators which also judge the recorded     *)
(* histories (Lin.tla), nothing is kept while waiting for another node,    *)
(* there is no deadlock, and all requests complete (C13).                  *)
(***************************************************************************)
EXTENDS Lin, TLC
CONSTANTS Nodes, Procs, Points, First, Menu, MaxDown, Bug
VARIABLES data,   \* node -> points
          has,    \* nodes with the namespace
          slot,   \* node -> process that uses the store (0: none)
          pc, op, hand, cur, tgt, got, lim, out, seen, res,   \* of the processes
          down, h, clock
vars == <<data, has, slot, pc, op, hand, cur, tgt, got, lim, out, seen, res, down, h, clock>>
net == <<data, has, slot>>
loc == <<op, hand, cur, tgt, got, lim, out, seen, res>>

None == 0
NoOp == [kind |-> "none", node |-> None, from |-> None, to |-> {}, n |-> 0, id |-> 0]
E(p, v, x) == [v EXCEPT ![p] = x]

Init ==
    /\ data = First /\ has = {n \in Nodes : First[n] # {}}
    /\ slot = [n \in Nodes |-> None]
    /\ pc = [p \in Procs |-> "idle"]
    /\ op = [p \in Procs |-> NoOp]
    /\ hand = [p \in Procs |-> {}] /\ cur = [p \in Procs |-> None]
    /\ tgt = [p \in Procs |-> {}] /\ got = [p \in Procs |-> 0] /\ lim = [p \in Procs |-> 0]
    /\ out = [p \in Procs |-> {}] /\ seen = [p \in Procs |-> 0]
    /\ res = [p \in Procs |-> "none"]
    /\ down = {} /\ clock = 0 /\ h = [p \in Procs |-> <<0, 0>>]

Goto(p, l) == pc' = E(p, pc, l)
Others(vs) == UNCHANGED vs

Used == UNION {{op[p].id} : p \in Procs} \cup UNION {First[n] : n \in Nodes}

Start(p) ==
    /\ pc[p] = "idle"
    /\ \A q \in Procs : q < p => pc[q] # "idle"     \* Symmetry of the processes.
    /\ \E o \in Menu :
         /\ o.node \notin down
         \* Symmetry of the points: the least one which is not in use.
         /\ LET free == Points \ Used IN
            /\ o.kind = "add" => free # {}
            /\ op' = E(p, op, [o EXCEPT !.id = IF o.kind = "add" THEN CHOOSE x \in free : \A y \in free : x <= y ELSE 0])
         /\ Goto(p, CASE o.kind = "add" -> IF Bug = "create" THEN "look" ELSE "create"
                      [] o.kind = "steal" -> "init"
                      [] OTHER -> "slot")
    /\ clock' = clock + 1 /\ h' = [h EXCEPT ![p][1] = clock + 1]
    /\ UNCHANGED <<net, hand, cur, tgt, got, lim, out, seen, res, down>>

Finish(p, r) == /\ Goto(p, "reply") /\ res' = E(p, res, r)

Reply(p) ==
    /\ pc[p] = "reply" /\ Goto(p, "done")
    /\ slot' = [n \in Nodes |-> IF slot[n] = p THEN None ELSE slot[n]]   \* only with Bug = "hold"
    /\ clock' = clock + 1 /\ h' = [h EXCEPT ![p][2] = clock + 1]
    /\ UNCHANGED <<data, has, loc, down>>

\* The namespace is created if it is absent (one step: the table is locked).
Create(p) ==
    /\ pc[p] = "create" /\ Goto(p, "slot")
    /\ has' = has \cup {op[p].node}
    /\ UNCHANGED <<data, slot, loc, down, h, clock>>
\* The wrong way: in two steps.
Look(p) ==
    /\ pc[p] = "look" /\ Goto(p, IF op[p].node \in has THEN "slot" ELSE "make")
    /\ UNCHANGED <<net, loc, down, h, clock>>
Make(p) ==
    /\ pc[p] = "make" /\ Goto(p, "slot")
    /\ has' = has \cup {op[p].node} /\ data' = [data EXCEPT ![op[p].node] = {}]
    /\ UNCHANGED <<slot, loc, down, h, clock>>

Slot(p) ==
    /\ pc[p] = "slot"
    /\ IF op[p].node \notin has
       THEN Finish(p, "ns") /\ slot' = slot
       ELSE slot[op[p].node] = None /\ slot' = [slot EXCEPT ![op[p].node] = p] /\ Goto(p, "body") /\ res' = res
    /\ UNCHANGED <<data, has, op, hand, cur, tgt, got, lim, out, seen, down, h, clock>>

Subs(S, k) == {T \in SUBSET S : Cardinality(T) = Min(k, Cardinality(S))}

Body(p) ==
    LET n == op[p].node IN
    /\ pc[p] = "body"
    /\ slot' = IF Bug = "hold" /\ op[p].kind = "dist" THEN slot ELSE [slot EXCEPT ![n] = None]
    /\ CASE op[p].kind = "add" ->
              data' = [data EXCEPT ![n] = @ \cup {op[p].id}] /\ Goto(p, "reply") /\ UNCHANGED <<hand, out, seen>>
         [] op[p].kind = "len" ->
              seen' = E(p, seen, Cardinality(data[n])) /\ Goto(p, "reply") /\ UNCHANGED <<data, hand, out>>
         [] op[p].kind = "drain" ->
              \E S \in Subs(data[n], op[p].n) :
                 /\ data' = [data EXCEPT ![n] = @ \ S] /\ out' = E(p, out, S)
                 /\ Goto(p, "reply") /\ UNCHANGED <<hand, seen>>
         [] op[p].kind = "dist" ->
              \E S \in Subs(data[n], op[p].n) :
                 /\ data' = [data EXCEPT ![n] = @ \ S] /\ hand' = E(p, hand, S)
                 /\ Goto(p, "send") /\ UNCHANGED <<out, seen>>
    /\ UNCHANGED <<has, op, cur, tgt, got, lim, res, down, h, clock>>

\* Redistribution, point by point.
Send(p) ==
    /\ pc[p] = "send"
    /\ IF hand[p] = {} THEN Goto(p, "reply") /\ UNCHANGED <<cur, tgt>>
       ELSE \E x \in hand[p] : cur' = E(p, cur, x) /\ tgt' = E(p, tgt, op[p].to) /\ Goto(p, "try")
    /\ UNCHANGED <<net, op, hand, got, lim, out, seen, res, down, h, clock>>
Try(p) ==
    /\ pc[p] = "try"
    /\ LET ok == {m \in tgt[p] : m \notin down /\ m \in has} IN
       IF ok = {} THEN Goto(p, "back") /\ UNCHANGED <<tgt, seen>>
       ELSE \E m \in ok : seen' = E(p, seen, m) /\ tgt' = E(p, tgt, tgt[p] \ {m}) /\ Goto(p, "rslot")
    /\ UNCHANGED <<net, op, hand, cur, got, lim, out, res, down, h, clock>>
RSlot(p) ==
    LET m == seen[p] IN
    /\ pc[p] = "rslot"
    /\ IF m \in down THEN Goto(p, "try") /\ slot' = slot       \* refused
       ELSE slot[m] = None /\ slot' = [slot EXCEPT ![m] = p] /\ Goto(p, "rbody")
    /\ UNCHANGED <<data, has, loc, down, h, clock>>
RBody(p) ==
    LET m == seen[p] IN
    /\ pc[p] = "rbody" /\ Goto(p, "send")
    /\ data' = [data EXCEPT ![m] = @ \cup {cur[p]}]
    /\ hand' = E(p, hand, hand[p] \ {cur[p]})
    /\ slot' = [slot EXCEPT ![m] = None]
    /\ UNCHANGED <<has, op, cur, tgt, got, lim, out, seen, res, down, h, clock>>
Back(p) ==
    LET n == op[p].node IN
    /\ pc[p] = "back" /\ slot[n] \in {None} \cup (IF Bug = "hold" THEN {p} ELSE {})
    /\ Goto(p, "send")
    /\ data' = IF Bug = "noback" THEN data ELSE [data EXCEPT ![n] = @ \cup {cur[p]}]
    /\ hand' = E(p, hand, hand[p] \ {cur[p]})
    /\ UNCHANGED <<has, slot, op, cur, tgt, got, lim, out, seen, res, down, h, clock>>

\* Stealing, group by group.
StealInit(p) ==
    LET n == op[p].node  f == op[p].from IN
    /\ pc[p] = "init"
    /\ IF n \notin has /\ (f \in down \/ f \notin has) THEN Finish(p, "net") /\ has' = has
       ELSE has' = has \cup {n} /\ Goto(p, "slen") /\ res' = res
    /\ UNCHANGED <<data, slot, op, hand, cur, tgt, got, lim, out, seen, down, h, clock>>
StealLen(p) ==
    LET f == op[p].from IN
    /\ pc[p] = "slen"
    /\ IF f \in down \/ f \notin has THEN Finish(p, "net") /\ lim' = lim
       ELSE slot[f] = None /\ lim' = E(p, lim, Min(op[p].n, Cardinality(data[f]))) /\ Goto(p, "take") /\ res' = res
    /\ UNCHANGED <<net, op, hand, cur, tgt, got, out, seen, down, h, clock>>
Take(p) ==
    LET f == op[p].from IN
    /\ pc[p] = "take"
    /\ IF got[p] >= lim[p] /\ Bug # "nolimit" THEN Goto(p, "reply") /\ UNCHANGED <<slot, res>>
       ELSE IF f \in down THEN Finish(p, "net") /\ slot' = slot
       ELSE slot[f] = None /\ slot' = [slot EXCEPT ![f] = p] /\ Goto(p, "tbody") /\ res' = res
    /\ UNCHANGED <<data, has, op, hand, cur, tgt, got, lim, out, seen, down, h, clock>>
TBody(p) ==
    LET f == op[p].from IN
    /\ pc[p] = "tbody"
    /\ slot' = [slot EXCEPT ![f] = None]
    /\ IF data[f] = {} THEN Goto(p, "reply") /\ UNCHANGED <<data, hand>>
       ELSE \E G \in SUBSET data[f] \ {{}} :
              /\ hand' = E(p, hand, G) /\ Goto(p, "give")
              /\ data' = IF Bug = "copy" THEN data ELSE [data EXCEPT ![f] = @ \ G]
    /\ UNCHANGED <<has, op, cur, tgt, got, lim, out, seen, res, down, h, clock>>
Give(p) ==
    LET n == op[p].node IN
    /\ pc[p] = "give" /\ slot[n] = None /\ Goto(p, "take")
    /\ data' = [data EXCEPT ![n] = @ \cup hand[p]]
    /\ got' = E(p, got, Min(got[p] + Cardinality(hand[p]), Cardinality(Points)))
    /\ hand' = E(p, hand, {})
    /\ UNCHANGED <<has, slot, op, cur, tgt, lim, out, seen, res, down, h, clock>>

\* A node stops answering (new) requests.
Fail(n) ==
    /\ n \notin down /\ Cardinality(down) < MaxDown
    /\ down' = down \cup {n}
    /\ UNCHANGED <<net, pc, loc, h, clock>>

Step(p) == Start(p) \/ Reply(p) \/ Create(p) \/ Look(p) \/ Make(p) \/ Slot(p) \/ Body(p)
           \/ Send(p) \/ Try(p) \/ RSlot(p) \/ RBody(p) \/ Back(p)
           \/ StealInit(p) \/ StealLen(p) \/ Take(p) \/ TBody(p) \/ Give(p)
AllDone == \A p \in Procs : pc[p] = "done"
Stuck == \A p \in Procs : pc[p] = "done" \/ (pc[p] = "idle" /\ \A o \in Menu : o.node \in down \/ (o.kind = "add" /\ Points \subseteq Used))
Next == (\E p \in Procs : Step(p)) \/ (\E n \in Nodes : Fail(n)) \/ (Stuck /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Step(p))

-----------------------------------------------------------------------------
Places(x) == Cardinality({n \in Nodes : x \in data[n]}) + Cardinality({p \in Procs : x \in hand[p]})
             + Cardinality({p \in Procs : x \in out[p]})
Acked == UNION {First[n] : n \in Nodes}
         \cup {op[p].id : p \in {q \in Procs : op[q].kind = "add" /\ pc[q] \in {"reply", "done"}}}
Once == \A x \in Points : Places(x) <= 1
Kept == \A x \in Acked : Places(x) = 1
\* The store of another node, or one's own, is never kept while waiting.
NothingKept == \A n \in Nodes : slot[n] # None => pc[slot[n]] \in {"body", "rbody", "tbody"}
\* Points are only where the namespace is.
InNamespace == \A n \in Nodes : data[n] # {} => n \in has

RECURSIVE Seq2(_)
Seq2(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o Seq2(S \ {x})
Cont(d, hs) == LET q == Seq2(hs) IN [i \in DOMAIN q |-> [ns |-> q[i], ids |-> Seq2(d[q[i]])]]
\* The history as it is recorded from the real nodes. With several nodes the
\* namespace is "a", with one node each node is its own namespace.
OpRec(p, ns) == [op |-> op[p].kind, ns |-> ns, id |-> op[p].id, ok |-> op[p].kind = "add", valid |-> TRUE,
                 err |-> res[p], n |-> op[p].n, drain |-> op[p].kind = "drain", out |-> Seq2(out[p]),
                 rn |-> seen[p], names |-> <<>>, inv |-> h[p][1], ret |-> h[p][2]]
Ran == Seq2({p \in Procs : pc[p] = "done" /\ op[p].kind \in {"add", "drain", "len"}})
HistN == LET q == Ran
             c(d, hs) == LET s == Seq2(hs) IN [i \in DOMAIN s |-> [ns |-> "a", ids |-> Seq2(d[s[i]])]]
         IN  [ops |-> [i \in DOMAIN q |-> OpRec(q[i], "a")],
              before |-> c(First, {n \in Nodes : First[n] # {}}), after |-> c(data, has)]
Hist1 == LET q == Ran IN
         [ops |-> [i \in DOMAIN q |-> OpRec(q[i], op[q[i]].node)],
          before |-> Cont(First, {n \in Nodes : First[n] # {}}), after |-> Cont(data, has)]
ConservedAtEnd == Stuck => Conserved(HistN)
LinearizableAtEnd == Stuck => Linearizable(Hist1)

Completes == <>[](\A p \in Procs : pc[p] \in {"done", "idle"})
=============================================================================
