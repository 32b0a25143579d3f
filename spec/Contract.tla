------------------------------ MODULE Contract ------------------------------
(***************************************************************************)
(* What every single operation of trypo may do: the relation between the   *)
(* stores before an operation (P), the operation with its arguments and    *)
(* its reply (s), and the stores after it (Q).                             *)
(*                                                                         *)
(* A state is a function from store names ("node/namespace", "-/name" for  *)
(* library stores) to stores                                               *)
(*    [node, ns, kind ("cm": groups of points, "cent": one bare group),    *)
(*     v (representative vector), g (sequence of groups [v, d])]           *)
(* where d is the sequence of the ids of the stored points.                *)
(*                                                                         *)
(* c is the context: c.metric ("cos" or "euc") and c.dps, which maps ids   *)
(* to the (immutable) points. Vectors are records [x, u, ok, in, fin]: x   *)
(* in thousandths, u the unit direction in ten-thousandths (0 for the zero *)
(* vector), ok: x and u are usable for geometry, in: x is usable for       *)
(* arithmetic, fin: finite.                                                *)
(*                                                                         *)
(* s.dead are points that had expired before the operation, s.fuzzy those  *)
(* whose expiry falls into (the margin of) the operation, s.down the nodes *)
(* that can not be reached and s.noadd those that can, but not for         *)
(* inserts.                                                                *)
(*                                                                         *)
(* c.odd: vectors of the execution can be out of the range of the          *)
(* arithmetic here (or overflow in the implementation), which takes the    *)
(* geometry out of what is checked.                                        *)
(*                                                                         *)
(* There is one operator per property; Fails collects the violated ones.   *)
(* The trace specification (Trace.tla) evaluates them on every step of the *)
(* recorded executions of the implementation, and the design               *)
(* specifications (Store.tla, Cluster.tla) on every transition of the      *)
(* modelled algorithms.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Range(f) == {f[i] : i \in DOMAIN f}
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a

RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
SumSeq(f) == SumTo(f, Len(f))
RECURSIVE SumSet(_, _)
SumSet(f, S) == IF S = {} THEN 0
                ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumSet(f, S \ {x})

-----------------------------------------------------------------------------
(* Geometry.                                                               *)

Dot(a, b) == SumTo([i \in 1..Len(a) |-> a[i] * b[i]], Len(a))
SqDist(a, b) == SumTo([i \in 1..Len(a) |-> (a[i] - b[i]) * (a[i] - b[i])], Len(a))

\* Fit of two vectors (the more the better): minus the squared distance of the
\* vectors, or of the unit vectors, which is 2 - 2cos. Zero vectors have no
\* direction, and a cosine of 0. Vectors of different lengths do not fit at all.
Null(a) == \A i \in DOMAIN a.u : a.u[i] = 0
Sim(c, a, b) == IF c.metric = "euc" THEN -SqDist(a.x, b.x)
                ELSE IF Null(a) \/ Null(b) THEN -200000000 ELSE -SqDist(a.u, b.u)
\* How far that may be off, as the traces are rounded: any difference is off by
\* one at most.
Off(a, b) == SumTo([i \in 1..Len(a) |-> 2 * Abs(a[i] - b[i]) + 1], Len(a))
Err(c, a, b) == IF c.exact THEN 0 ELSE IF c.metric = "euc" THEN Off(a.x, b.x) ELSE Off(a.u, b.u)
SimHi(c, a, b) == Sim(c, a, b) + Err(c, a, b)
SimLo(c, a, b) == Sim(c, a, b) - Err(c, a, b)
Same(a, b) == Len(a.x) = Len(b.x)
Dp(c, id) == c.dps[id]

\* a may be at least as near to q as b.
Near(c, q, a, b) == SimHi(c, q, a) >= SimLo(c, q, b)
\* a is nearer to q than b for sure.
Nearer(c, q, a, b) == SimLo(c, q, a) > SimHi(c, q, b)

-----------------------------------------------------------------------------
(* States.                                                                 *)

Ids(g) == Range(g.d)
StIds(S, st) == IF st \in DOMAIN S THEN UNION {Ids(S[st].g[i]) : i \in DOMAIN S[st].g} ELSE {}
StLen(S, st) == IF st \in DOMAIN S THEN SumSeq([i \in DOMAIN S[st].g |-> Len(S[st].g[i].d)]) ELSE 0
All(S) == UNION {StIds(S, st) : st \in DOMAIN S}
NoDup(S) == SumSet([st \in DOMAIN S |-> StLen(S, st)], DOMAIN S) = Cardinality(All(S))
Groups(S, st) == IF st \in DOMAIN S THEN {Ids(S[st].g[i]) : i \in DOMAIN S[st].g} ELSE {}
NEGroups(S, st) == Groups(S, st) \ {{}}
Empties(S, st) == Cardinality({i \in DOMAIN S[st].g : Len(S[st].g[i].d) = 0})
StoresOf(S, id) == {st \in DOMAIN S : id \in StIds(S, st)}
Key(node, ns) == node \o "/" \o ns

\* All vectors of a store are usable for geometry.
StOk(c, S, st) == /\ S[st].v.ok
                  /\ \A i \in DOMAIN S[st].g : S[st].g[i].v.ok
                  /\ \A id \in StIds(S, st) : id > 0 /\ Dp(c, id).ok

-----------------------------------------------------------------------------
(* Operations.                                                             *)

Dead(s) == Range(s.dead)
Gone(s) == Range(s.dead) \cup Range(s.fuzzy)
Out(s) == Range(s.out)
Down(s) == Range(s.down)
Cands(s) == Range(s.cands)

InsertOps == {"add", "put", "hput"}
LookupOps == {"knn", "query", "hquery"}
DrainOps  == {"drainU", "drainO"}
MaintOps  == {"expire", "memtrim", "movevec", "distint", "split", "merge", "give"}
MoveOps   == {"dist", "steal"}
ReadOps   == {"len", "vec", "nss", "meta", "rank", "nearv"}
RoutedOps == {"put", "query", "hput", "hquery", "rank"}
\* Operations on one store, by name.
DirectOps == {"add", "knn", "nearc", "nearv", "vec", "len"} \cup DrainOps \cup MaintOps \cup MoveOps

\* A query over HTTP found points that can not be written in JSON (values that
\* are not finite, for example), so it has to fail.
Unwritable(s) == s.op = "hquery" /\ s.status = 500

Removes(s) == ~Unwritable(s) /\ (s.op \in DrainOps \/ (s.op \in {"knn", "query", "hquery", "nearc"} /\ s.drain))

\* The node of a direct operation can not be reached.
Unreached(s) == s.op \in DirectOps \cup {"nss", "meta"} /\ s.node \in Down(s)
\* It can, but does not have the namespace.
Missing(P, s) == /\ s.op \in DirectOps \ {"add", "steal"}
                 /\ s.via = "rpc" /\ ~Unreached(s) /\ s.st \notin DOMAIN P
Runs(P, s) == s.err = "none" /\ ~Unreached(s) /\ ~Missing(P, s)

\* Reachable candidates that hold the namespace.
Holders(P, s) == {n \in Cands(s) \ Down(s) : Key(n, s.ns) \in DOMAIN P}

GroupIdx(P, st, q) == {i \in DOMAIN P[st].g : Same(P[st].g[i].v, q)}
\* Holders that are ranked in a mode, for a vector.
Ranked(P, s, mode, q) ==
    IF mode = "fast" THEN {n \in Holders(P, s) : Same(P[Key(n, s.ns)].v, q)}
    ELSE {n \in Holders(P, s) : GroupIdx(P, Key(n, s.ns), q) # {}}
\* Fit of a node.
RECURSIVE MaxOf(_)
MaxOf(S) == LET x == CHOOSE x \in S : TRUE IN
            IF S = {x} THEN x ELSE Max(x, MaxOf(S \ {x}))
NodeHi(c, P, s, mode, q, n) ==
    LET st == Key(n, s.ns) IN
    IF mode = "fast" THEN SimHi(c, q, P[st].v)
    ELSE MaxOf({SimHi(c, q, P[st].g[i].v) : i \in GroupIdx(P, st, q)})
NodeLo(c, P, s, mode, q, n) ==
    LET st == Key(n, s.ns) IN
    IF mode = "fast" THEN SimLo(c, q, P[st].v)
    ELSE MaxOf({SimLo(c, q, P[st].g[i].v) : i \in GroupIdx(P, st, q)})
\* a may be at least as near as b.
NodeNear(c, P, s, mode, q, a, b) == NodeHi(c, P, s, mode, q, a) >= NodeLo(c, P, s, mode, q, b)
NodeOk(P, s, mode, n) ==
    LET st == Key(n, s.ns) IN
    IF mode = "fast" THEN P[st].v.ok ELSE \A i \in DOMAIN P[st].g : P[st].g[i].v.ok

\* A store would take a point (which has not expired).
StoreTakes(c, P, st, id) ==
    \/ st \notin DOMAIN P
    \/ P[st].kind = "cent" /\ Same(P[st].v, Dp(c, id))
    \/ P[st].kind = "cm" /\ (Len(P[st].g) = 0 \/ GroupIdx(P, st, Dp(c, id)) # {})
NodeTakes(c, P, s, n, id) ==
    n \notin Down(s) /\ n \notin Range(s.noadd) /\ StoreTakes(c, P, Key(n, s.ns), id)

-----------------------------------------------------------------------------
(* C01  Acknowledged inserts are stored exactly once, others not at all.   *)

\* Nodes that an insert is offered to.
Addressed(c, P, s) ==
    CASE s.op = "add" -> {s.node}
      [] s.op = "put" /\ s.mode = "rand" -> Cands(s)
      [] s.op = "put" -> Ranked(P, s, s.mode, Dp(c, s.id))
      [] s.op = "hput" -> Cands(s)
      [] OTHER -> {}
Ack(s) == s.ok

C01(c, s, P, Q) ==
    s.op \in InsertOps =>
    LET new == All(Q) \ All(P)
        ns  == DOMAIN Q \ DOMAIN P
        at  == StoresOf(Q, s.id)
    IN  /\ NoDup(Q)
        /\ All(P) \ All(Q) \subseteq Gone(s)
        /\ Ack(s) =>
             /\ s.id \notin Dead(s)
             /\ s.id \notin All(P)
             /\ new = {s.id} \/ (new = {} /\ s.id \in Gone(s))
             /\ \A st \in at : Q[st].ns = s.ns /\ Q[st].node \in Addressed(c, P, s)
             /\ s.id \in All(Q) => ns \subseteq at
             /\ s.err = "none"
        /\ ~Ack(s) => new = {} /\ ns = {}
        /\ (s.id \notin Gone(s) /\ Dp(c, s.id).ok
            /\ \E n \in Addressed(c, P, s) : NodeTakes(c, P, s, n, s.id)) => Ack(s)

-----------------------------------------------------------------------------
(* C02, C03  Conservation.                                                 *)

Conserves(s, P, Q) ==
    /\ All(Q) \subseteq All(P)
    /\ All(P) \ All(Q) \subseteq Gone(s)
    /\ NoDup(Q)
    /\ Len(s.bad) = 0

C02(c, s, P, Q) ==
    s.op \in MaintOps \cup ReadOps =>
    /\ Conserves(s, P, Q)
    \* Nothing moves between stores, except to the receivers of a "give".
    /\ \A st \in DOMAIN Q : s.op # "give" => StIds(Q, st) \subseteq StIds(P, st)

C03(c, s, P, Q) ==
    s.op \in MoveOps =>
    /\ Conserves(s, P, Q)
    \* Points stay in the namespace, and move to involved nodes only.
    /\ \A st \in DOMAIN Q : StIds(Q, st) \subseteq StIds(P, st) \/
          /\ Q[st].ns = s.ns
          /\ Q[st].node \in (IF s.op = "dist" THEN (Cands(s) \ Down(s)) \ Range(s.noadd) ELSE {s.node})

-----------------------------------------------------------------------------
(* C04  Lookups and drains return what they should, and remove just that.  *)

\* Stores that an operation may return points of.
Source(P, s) ==
    IF s.op \in {"query", "hquery"} THEN {Key(n, s.ns) : n \in Holders(P, s)}
    ELSE IF Unreached(s) \/ s.st \notin DOMAIN P THEN {} ELSE {s.st}

C04(c, s, P, Q) ==
    s.op \in LookupOps \cup DrainOps \cup {"nearc"} =>
    /\ Len(s.out) = Cardinality(Out(s))
    /\ Out(s) \subseteq UNION {StIds(P, st) : st \in Source(P, s)}
    /\ s.op # "nearc" => Len(s.out) <= Max(s.n, 0)
    /\ s.op = "nearc" => Len(s.groups) <= Max(s.n, 0)
    /\ NoDup(Q)
    /\ All(Q) \subseteq All(P)
    /\ IF Removes(s)
       THEN /\ All(Q) \cap Out(s) = {}
            /\ (All(P) \ Out(s)) \ Gone(s) \subseteq All(Q)
       ELSE All(P) \ Gone(s) \subseteq All(Q)
    \* The points stay where they are.
    /\ Unwritable(s) \/ \A st \in DOMAIN Q : StIds(Q, st) \subseteq StIds(P, st)

-----------------------------------------------------------------------------
(* C05  Expiry.                                                            *)

C05(c, s, P, Q) ==
    \* Not served (the groups of a library lookup are not points).
    /\ ~(s.op = "nearc" /\ s.via = "lib") => Out(s) \cap Dead(s) = {}
    \* Not accepted, not moved and not revived.
    /\ s.op \in InsertOps /\ s.id \in Dead(s) => ~s.ok
    /\ All(Q) \cap Dead(s) \subseteq All(P)
    /\ \A id \in Dead(s) \cap All(Q) :
          {Q[st].node : st \in StoresOf(Q, id)} \subseteq {P[st].node : st \in StoresOf(P, id)}
    \* Purged.
    /\ s.op \in {"expire", "memtrim"} /\ Runs(P, s) => StIds(Q, s.st) \cap Dead(s) = {}
    \* Others are not dropped.
    /\ All(P) \ All(Q) \subseteq Gone(s) \cup (IF Removes(s) THEN Out(s) ELSE {})

-----------------------------------------------------------------------------
(* C06  Completeness of lookups.                                           *)

LookupStores(P, s) ==
    IF s.op = "knn" THEN Source(P, s)
    ELSE {Key(n, s.ns) : n \in IF s.mode = "rand" THEN Holders(P, s) ELSE Ranked(P, s, s.mode, s.q)}

C06(c, s, P, Q) ==
    (s.op \in LookupOps /\ ~Unwritable(s) /\ s.n > 0 /\ s.q.ok
     /\ \A st \in LookupStores(P, s) : \A id \in StIds(P, st) : Dp(c, id).ok) =>
    LET live == {id \in UNION {StIds(P, st) : st \in LookupStores(P, s)} \ Gone(s) :
                    Same(Dp(c, id), s.q)}
    IN  Len(s.out) >= Min(s.n, Cardinality(live))

-----------------------------------------------------------------------------
(* C08  Nearest groups first, in a group the nearest points first.         *)

GroupOf(P, st, id) == CHOOSE i \in DOMAIN P[st].g : id \in Ids(P[st].g[i])

\* A sequence of points which were looked up in one store.
NearestFirst(c, s, P, st, q, out) ==
    LET n == Len(out)
        gr == [i \in 1..n |-> GroupOf(P, st, out[i])]
        gv(j) == P[st].g[j].v
        done(j) == {id \in Ids(P[st].g[j]) \ Gone(s) : Same(Dp(c, id), q)} \subseteq Range(out)
    IN  \* groups, nearest first,
        /\ \A i \in 1..(n - 1) : Near(c, q, gv(gr[i]), gv(gr[i + 1]))
        \* each of them until it is exhausted,
        /\ \A j \in Range(gr), k \in GroupIdx(P, st, q) : Nearer(c, q, gv(k), gv(j)) => done(k)
        /\ \A i \in 1..(n - 1) : gr[i] # gr[i + 1] => done(gr[i])
        \* and in each group the nearest points, nearest first.
        /\ \A i \in 1..(n - 1) : gr[i] = gr[i + 1] => Near(c, q, Dp(c, out[i]), Dp(c, out[i + 1]))
        /\ \A i \in 1..n : \A id \in Ids(P[st].g[gr[i]]) \ (Gone(s) \cup Range(out)) :
              Same(Dp(c, id), q) => Near(c, q, Dp(c, out[i]), Dp(c, id))

\* Groups that an inserted point can have been put into, judging by the content.
Strip(G, D) == {g \ D : g \in G} \ {{}}
Homes(s, P, Q, st, id) ==
    LET gone == Gone(s) \ {id}
        post == Strip(NEGroups(Q, st), gone)
    IN  {j \in DOMAIN P[st].g :
            LET home == Ids(P[st].g[j]) \ gone
                others == Strip({Ids(P[st].g[i]) : i \in DOMAIN P[st].g \ {j}}, gone)
                changed == post \ others
            IN  /\ others \subseteq post
                /\ UNION changed = home \cup {id}
                /\ Cardinality(changed) <= 2
                /\ gone = {} => Empties(Q, st) = Empties(P, st) - (IF home = {} THEN 1 ELSE 0)}

C08add(c, s, P, Q) ==
    (s.op \in InsertOps /\ s.ok /\ s.id \notin Gone(s) /\ Cardinality(StoresOf(Q, s.id)) = 1) =>
    LET st == CHOOSE st \in StoresOf(Q, s.id) : TRUE
        idx == GroupIdx(P, st, Dp(c, s.id))
    IN  (st \in DOMAIN P /\ Q[st].kind = "cm" /\ P[st].kind = "cm" /\ StOk(c, P, st) /\ Dp(c, s.id).ok) =>
        IF Len(P[st].g) = 0 THEN {s.id} \in Groups(Q, st)
        ELSE \E j \in Homes(s, P, Q, st, s.id) \cap idx :
                \A k \in idx : Near(c, Dp(c, s.id), P[st].g[j].v, P[st].g[k].v)

\* Lookups in one store.
C08knn(c, s, P, Q) ==
    (s.op = "knn" /\ s.st \in DOMAIN P /\ StOk(c, P, s.st) /\ s.q.ok
     /\ Out(s) \subseteq StIds(P, s.st)) =>
    NearestFirst(c, s, P, s.st, s.q, s.out)

C08nearc(c, s, P, Q) ==
    (s.op = "nearc" /\ Runs(P, s) /\ StOk(c, P, s.st) /\ s.q.ok) =>
    LET got == s.groups
        st == s.st
        gone == Gone(s)
        idx == GroupIdx(P, st, s.q)
        \* Indexes of the groups that correspond to a returned one.
        At(g) == {i \in idx : Ids(P[st].g[i]) = Range(g)}
    IN  gone = {} =>
        /\ \A i \in DOMAIN got : At(got[i]) # {}
        \* nearest first (empty groups can not be told apart),
        /\ \A i \in 1..(Len(got) - 1) : Len(got[i]) > 0 /\ Len(got[i + 1]) > 0 =>
              \A a \in At(got[i]), b \in At(got[i + 1]) : Near(c, s.q, P[st].g[a].v, P[st].g[b].v)
        \* and no other (with points) is nearer than a returned one.
        /\ \A i \in DOMAIN got, k \in idx :
              Len(got[i]) > 0 /\ Ids(P[st].g[k]) # {} /\ Ids(P[st].g[k]) \notin {Range(got[m]) : m \in DOMAIN got} =>
              \A a \in At(got[i]) : Near(c, s.q, P[st].g[a].v, P[st].g[k].v)
        \* As many as there are (the remote interface leaves out empty ones).
        /\ LET near == {k \in idx : Cardinality({j \in idx \ {k} : ~Nearer(c, s.q, P[st].g[k].v, P[st].g[j].v)}) < s.n}
           IN  \A k \in near : Ids(P[st].g[k]) # {} => Ids(P[st].g[k]) \in {Range(got[m]) : m \in DOMAIN got}
        /\ s.via = "lib" => Len(got) = Min(Max(s.n, 0), Cardinality(idx))
        \* Removed if they are drained.
        /\ s.drain => \A i \in DOMAIN got : Len(got[i]) > 0 => Range(got[i]) \notin Groups(Q, st)
        /\ s.drain => Len(Q[st].g) = Len(P[st].g) - Min(Max(s.n, 0), Cardinality(idx))
        /\ ~s.drain => Groups(Q, st) = Groups(P, st)

C08nearv(c, s, P, Q) ==
    (s.op = "nearv" /\ Runs(P, s) /\ StOk(c, P, s.st) /\ s.q.ok) =>
    LET idx == GroupIdx(P, s.st, s.q) IN
    IF idx = {} THEN ~s.ok
    ELSE /\ s.ok /\ s.vec.ok
         /\ \A k \in idx : Near(c, s.q, s.vec, P[s.st].g[k].v)
         /\ \E k \in idx : s.vec.x = P[s.st].g[k].v.x

\* Redistribution within a node: a point that changes its group goes to the
\* nearest one. Only one point, otherwise the vectors change in between.
C08distint(c, s, P, Q) ==
    (s.op = "distint" /\ Runs(P, s) /\ s.n = 1 /\ StOk(c, P, s.st) /\ Gone(s) \cap StIds(P, s.st) = {}
     /\ \A st \in {s.st} : Len(Q[st].g) = Len(P[st].g)) =>
    LET st == s.st
        moved == {id \in StIds(P, st) \cap StIds(Q, st) : GroupOf(P, st, id) # GroupOf(Q, st, id)}
    IN  /\ Cardinality(moved) <= 1
        /\ \A id \in moved :
              LET src == GroupOf(P, st, id)  \* its vector changes by the removal
                  dst == GroupOf(Q, st, id)
              IN  \A k \in GroupIdx(P, st, Dp(c, id)) \ {src} :
                    Near(c, Dp(c, id), P[st].g[dst].v, P[st].g[k].v)
        \* What was taken is the worst-fitting point of some group; if it
        \* stayed then no other group is nearer for sure.
        /\ moved = {} /\ StIds(P, st) # {} =>
              \E i \in DOMAIN P[st].g : \E id \in Ids(P[st].g[i]) :
                 /\ \A o \in Ids(P[st].g[i]) : Near(c, P[st].g[i].v, Dp(c, o), Dp(c, id))
                 \* The group without the point is not worse than the others.
                 /\ LET rest == Ids(P[st].g[i]) \ {id} IN
                    rest = {} => \A k \in GroupIdx(P, st, Dp(c, id)) : Near(c, Dp(c, id), P[st].g[i].v, P[st].g[k].v)

\* Points handed to receivers of the library go to the nearest one that is
\* given (a refusing one sends them back).
C08give(c, s, P, Q) ==
    (s.op = "give" /\ s.n = 1 /\ Range(s.recv) # {} /\ StOk(c, P, s.st)) =>
    \A id \in StIds(P, s.st) \ StIds(Q, s.st) : id \notin Gone(s) =>
        \A st \in StoresOf(Q, id) :
            /\ Q[st].ns \in Range(s.recv)
            /\ \A r \in Range(s.recv) : LET o == Key("-", r) IN
                 (Same(P[o].v, Dp(c, id)) /\ P[o].v.ok /\ P[st].v.ok) => Near(c, Dp(c, id), P[st].v, P[o].v)

C08(c, s, P, Q) ==
    /\ C08add(c, s, P, Q)
    /\ C08knn(c, s, P, Q)
    /\ C08nearc(c, s, P, Q)
    /\ C08nearv(c, s, P, Q)
    /\ C08distint(c, s, P, Q)
    /\ C08give(c, s, P, Q)

-----------------------------------------------------------------------------
(* C09  Representative vectors.                                            *)

\* v is the mean of the vectors vs (all in thousandths, rounded).
IsMean(v, vs) ==
    LET n == Len(vs) IN
    /\ \A i \in DOMAIN vs : Len(vs[i]) = Len(v)
    /\ \A k \in DOMAIN v :
         Abs(v[k] * n - SumTo([i \in 1..n |-> vs[i][k]], n)) <= 2 * n

GroupMean(c, g) ==
    /\ g.v.fin
    /\ (Len(g.d) > 0 /\ \A i \in DOMAIN g.d : g.d[i] > 0 /\ Dp(c, g.d[i]).in) =>
         /\ g.v.in
         /\ IsMean(g.v.x, [i \in DOMAIN g.d |-> Dp(c, g.d[i]).x])

StoreMean(c, S, P, st) ==
    LET t == S[st] IN
    /\ t.v.fin
    /\ \A i \in DOMAIN t.g : GroupMean(c, t.g[i])
    /\ (t.kind = "cm" /\ Len(t.g) > 0 /\ \A i \in DOMAIN t.g : t.g[i].v.in) =>
         /\ t.v.in
         /\ IsMean(t.v.x, [i \in DOMAIN t.g |-> t.g[i].v.x])
    \* An empty store keeps a usable vector.
    /\ (StLen(S, st) = 0 /\ st \in DOMAIN P) => Len(t.v.x) = Len(P[st].v.x)

C09(c, s, P, Q) ==
    /\ \A st \in DOMAIN Q : (st \notin DOMAIN P \/ Q[st] # P[st]) => StoreMean(c, Q, P, st)
    /\ s.op = "movevec" /\ Runs(P, s) => s.ok = (Len(Q[s.st].g) > 0 /\ (Q[s.st].kind = "cent" => StLen(Q, s.st) > 0))
    /\ s.op = "vec" /\ Runs(P, s) => s.ok /\ s.vec.x = P[s.st].v.x

-----------------------------------------------------------------------------
(* C10  Routing to the best fit.                                           *)

C10rank(c, s, P, Q) ==
    (s.op = "rank" /\ s.q.ok) =>
    LET R == Ranked(P, s, s.mode, s.q) IN
    (\A n \in R : NodeOk(P, s, s.mode, n)) =>
    /\ Range(s.names) = R
    /\ Len(s.names) = Cardinality(R)
    /\ \A i \in 1..(Len(s.names) - 1) :
          NodeNear(c, P, s, s.mode, s.q, s.names[i], s.names[i + 1])

\* Where a routed insert ended up: the best of the nodes that take it.
C10put(c, s, P, Q) ==
    (s.op \in {"put", "hput"} /\ Dp(c, s.id).ok /\ s.id \notin Gone(s)) =>
    LET at == {Q[st].node : st \in StoresOf(Q, s.id) \ StoresOf(P, s.id)}
        R == IF s.mode = "rand" THEN {} ELSE Ranked(P, s, s.mode, Dp(c, s.id))
        T == {n \in R : NodeTakes(c, P, s, n, s.id)}
    IN  (\A n \in R : NodeOk(P, s, s.mode, n)) =>
        IF T # {} THEN
             \A a \in at : /\ a \in T
                           /\ \A n \in T : NodeNear(c, P, s, s.mode, Dp(c, s.id), a, n)
        ELSE IF s.op = "hput" \/ s.mode = "rand"
             THEN /\ at \subseteq {n \in Cands(s) : NodeTakes(c, P, s, n, s.id)}
                  /\ (\E n \in Cands(s) : NodeTakes(c, P, s, n, s.id)) => at # {}
             ELSE at = {}

C10query(c, s, P, Q) ==
    (s.op \in {"query", "hquery"} /\ ~Unwritable(s) /\ s.q.ok /\ 0 \notin Out(s)
     /\ Out(s) \subseteq UNION {StIds(P, st) : st \in Source(P, s)}) =>
    LET rand == s.mode = "rand"
        R == IF rand THEN Holders(P, s) ELSE Ranked(P, s, s.mode, s.q)
        nd == [i \in DOMAIN s.out |->
                 P[CHOOSE st \in Source(P, s) : s.out[i] \in StIds(P, st)].node]
        done(n) == {id \in StIds(P, Key(n, s.ns)) \ Gone(s) : Same(Dp(c, id), s.q)} \subseteq Out(s)
        near(a, b) == NodeNear(c, P, s, s.mode, s.q, a, b)
    IN  (rand \/ \A n \in R : NodeOk(P, s, s.mode, n)) =>
        /\ Range(nd) \subseteq R
        \* One node after the other, and on only if there is nothing left.
        /\ \A i \in 1..(Len(nd) - 1) : nd[i] # nd[i + 1] =>
              /\ done(nd[i])
              /\ \A k \in (i + 1)..Len(nd) : nd[k] # nd[i]
        /\ ~rand => \A n \in R, m \in Range(nd) : ~near(m, n) => done(n)
        /\ ~rand => \A i \in 1..(Len(nd) - 1) : near(nd[i], nd[i + 1])
        \* Every node is considered if more points are needed.
        /\ (s.n > Len(s.out) /\ \A n \in R : \A id \in StIds(P, Key(n, s.ns)) : Dp(c, id).ok)
              => \A n \in R : done(n)

C10(c, s, P, Q) == C10rank(c, s, P, Q) /\ C10put(c, s, P, Q) /\ C10query(c, s, P, Q)

-----------------------------------------------------------------------------
(* C11  Namespaces.                                                        *)

MayChange(P, Q, s) ==
    LET on(ns) == {st \in DOMAIN P \cup DOMAIN Q : (IF st \in DOMAIN P THEN P[st].ns ELSE Q[st].ns) = ns}
        nd(st) == IF st \in DOMAIN P THEN P[st].node ELSE Q[st].node
    IN  CASE s.op = "give" -> {s.st} \cup {Key("-", r) : r \in Range(s.recv)}
          [] s.op \in {"put", "query", "hput", "hquery"} -> {st \in on(s.ns) : nd(st) \in Cands(s) \ Down(s)}
          [] s.op = "dist" -> {s.st} \cup {st \in on(s.ns) : nd(st) \in Cands(s) \ Down(s)}
          [] s.op = "steal" -> {s.st, Key(s.from, s.ns)}
          [] s.op \in {"nss", "meta", "hbad", "rank", "raw", "hodd"} -> {}
          [] s.op = "init" -> DOMAIN Q
          [] OTHER -> {s.st}

C11(c, s, P, Q) ==
    /\ \A st \in DOMAIN P : st \in DOMAIN Q
    /\ Len(s.drop) = 0
    /\ \A st \in DOMAIN Q : (st \notin DOMAIN P \/ P[st] # Q[st]) => st \in MayChange(P, Q, s)
    \* Only inserts and steals create a namespace, and only the one they are for.
    /\ (DOMAIN Q # DOMAIN P) => s.op \in InsertOps \cup {"steal", "init"}
    /\ s.op = "steal" => DOMAIN Q \ DOMAIN P \subseteq {s.st}
    /\ s.op \in InsertOps => \A st \in DOMAIN Q \ DOMAIN P : Q[st].ns = s.ns /\ s.id \in StIds(Q, st) \cup Gone(s)
    \* Unknown namespaces.
    /\ Missing(P, s) => /\ s.err = "ns"
                        /\ s.out = <<>> /\ s.groups = <<>> /\ s.vec.x = <<>>
                        /\ s.rn = 0 /\ ~s.ok
    /\ (s.op \in DirectOps /\ ~Unreached(s) /\ ~Missing(P, s)
        /\ ~(s.op = "add" /\ s.node \in Range(s.noadd))) => s.err = "none"
    /\ (s.op = "add" /\ s.via = "rpc" /\ s.ok /\ s.id \notin Gone(s)) => s.st \in DOMAIN Q
    \* Nothing of another namespace is returned.
    /\ \A id \in Out(s) : id > 0 => \E st \in DOMAIN P : id \in StIds(P, st) /\ P[st].ns = s.ns

-----------------------------------------------------------------------------
(* C14  Split and merge.                                                   *)

InRange(s, k) == k > s.mn /\ k < s.mx
Quiet(s, P, st) == Gone(s) \cap StIds(P, st) = {}

C14split(c, s, P, Q) ==
    (s.op = "split" /\ Runs(P, s) /\ Quiet(s, P, s.st)) =>
    LET pre == NEGroups(P, s.st)
        post == NEGroups(Q, s.st)
        splits == {g \in pre : InRange(s, Cardinality(g)) /\ Cardinality(g) >= 2}
    IN  /\ \A g \in pre \ splits : g \in post
        /\ \A g \in splits :
              LET parts == {h \in post : h \subseteq g} IN
              /\ Cardinality(parts) = 2
              /\ UNION parts = g
              /\ \E h \in parts : Cardinality(h) = Cardinality(g) \div 2
        /\ Len(Q[s.st].g) = Len(P[s.st].g) + Cardinality(splits)

\* A group made of the groups X can be the result of merging: the last step
\* joined one in the range (A) with another one.
RECURSIVE Joined(_, _)
Joined(s, X) == \/ Cardinality(X) = 1
                \/ \E A \in (SUBSET X) \ {{}, X} :
                      /\ InRange(s, Cardinality(UNION A))
                      /\ Joined(s, A) /\ Joined(s, X \ A)

C14merge(c, s, P, Q) ==
    (s.op = "merge" /\ Runs(P, s) /\ Quiet(s, P, s.st)
     /\ \A i, j \in DOMAIN P[s.st].g : Same(P[s.st].g[i].v, P[s.st].g[j].v)) =>
    LET pre == NEGroups(P, s.st)
        post == NEGroups(Q, s.st)
        card == Len(P[s.st].g)
        cand == {i \in DOMAIN P[s.st].g : InRange(s, Len(P[s.st].g[i].d))}
        gi(g) == CHOOSE i \in DOMAIN P[s.st].g : Ids(P[s.st].g[i]) = g
        vv(g) == P[s.st].g[gi(g)].v
    IN  \* Whole groups.
        /\ \A g \in pre : \E h \in post : g \subseteq h
        /\ Len(Q[s.st].g) <= card
        \* Nothing in the range is left, unless it is the only one.
        /\ \A i \in DOMAIN Q[s.st].g : ~InRange(s, Len(Q[s.st].g[i].d)) \/ Len(Q[s.st].g) = 1
        \* Nothing to do.
        /\ (cand = {} \/ card = 1) => Groups(Q, s.st) = Groups(P, s.st) /\ Len(Q[s.st].g) = card
        \* Not further than needed.
        /\ \A h \in post : LET parts == {g \in pre : g \subseteq h} IN
              Cardinality(parts) \in 2..5 =>
              \/ \E i \in cand : Ids(P[s.st].g[i]) = {}   \* an empty one attracted them
              \/ Joined(s, parts)
        \* A single candidate joins its nearest groups.
        /\ (Cardinality(cand) = 1 /\ StOk(c, P, s.st) /\ \A i \in cand : Len(P[s.st].g[i].d) > 0) =>
              LET a == Ids(P[s.st].g[CHOOSE i \in cand : TRUE])
                  h == CHOOSE h \in post : a \subseteq h
                  parts == {g \in pre : g \subseteq h} \ {a}
              IN  \A b \in parts, o \in pre \ (parts \cup {a}) : Near(c, vv(a), vv(b), vv(o))

C14auto(c, s, P, Q) ==
    (s.op \in InsertOps /\ s.ok /\ s.id \notin Gone(s) /\ Cardinality(StoresOf(Q, s.id)) = 1) =>
    LET st == CHOOSE st \in StoresOf(Q, s.id) : TRUE IN
    (Q[st].kind = "cm" /\ Quiet(s, P, st)) =>
    IF st \notin DOMAIN P THEN Groups(Q, st) = {{s.id}}
    ELSE IF Len(P[st].g) = 0 THEN Groups(Q, st) = {{s.id}} /\ Len(Q[st].g) = 1
    ELSE \E j \in Homes(s, P, Q, st, s.id) :
            LET home == Ids(P[st].g[j]) \cup {s.id}
                k == Cardinality(home)
                others == {Ids(P[st].g[i]) : i \in DOMAIN P[st].g \ {j}}
                changed == NEGroups(Q, st) \ others
            IN  IF s.thr >= 2 /\ k >= s.thr
                THEN /\ Len(Q[st].g) = Len(P[st].g) + 1
                     /\ UNION changed = home
                     /\ Cardinality(changed) = 2
                     /\ \E h \in changed : Cardinality(h) = s.thr \div 2
                ELSE /\ Len(Q[st].g) = Len(P[st].g)
                     /\ changed = {home}

C14(c, s, P, Q) == C14split(c, s, P, Q) /\ C14merge(c, s, P, Q) /\ C14auto(c, s, P, Q)

-----------------------------------------------------------------------------
(* C15  Drains: exact, even, worst-fitting first.                          *)

\* T was taken from the store st, of which n were wanted.
EvenlyTaken(P, st, T, n) ==
    LET g == P[st].g
        took(i) == Cardinality(Ids(g[i]) \cap T)
    IN  /\ Cardinality(T) = Min(Max(n, 0), StLen(P, st))
        /\ \A i, j \in DOMAIN g : took(i) >= took(j) + 2 => Ids(g[j]) \subseteq T
WorstTaken(c, P, st, T) ==
    LET g == P[st].g IN
    \A i \in DOMAIN g : \A r \in Ids(g[i]) \cap T, k \in Ids(g[i]) \ T :
        Near(c, g[i].v, Dp(c, k), Dp(c, r))

C15(c, s, P, Q) ==
    (s.op \in DrainOps /\ Runs(P, s) /\ Quiet(s, P, s.st)) =>
    /\ EvenlyTaken(P, s.st, Out(s), s.n)
    /\ StIds(Q, s.st) = StIds(P, s.st) \ Out(s)
    /\ (s.op = "drainO" /\ StOk(c, P, s.st)) => WorstTaken(c, P, s.st, Out(s))

-----------------------------------------------------------------------------
(* C16  Stealing.                                                          *)

C16(c, s, P, Q) ==
    (s.op = "steal" /\ ~Unreached(s) /\ s.from # s.node) =>
    LET don == Key(s.from, s.ns)
        thief == s.st
        reach == s.from \notin Down(s) /\ don \in DOMAIN P
        lv == IF thief \in DOMAIN P THEN P[thief].v ELSE P[don].v
        taken == {g \in NEGroups(P, don) : g \cap StIds(Q, don) = {}}
        left == {i \in DOMAIN P[don].g : Ids(P[don].g[i]) # {} /\ Ids(P[don].g[i]) \notin taken}
        gv(g) == P[don].g[CHOOSE i \in DOMAIN P[don].g : Ids(P[don].g[i]) = g].v
        tot == Cardinality(UNION taken)
    IN  /\ s.err = "none"
        /\ s.n > 0 /\ ~reach => ~s.ok /\ s.rn = 0 /\ (thief \in DOMAIN Q => thief \in DOMAIN P)
        /\ s.n > 0 /\ reach /\ ~s.cut => s.ok
        /\ s.n <= 0 => s.rn = 0 /\ StIds(Q, thief) \ Gone(s) = StIds(P, thief) \ Gone(s)
        /\ reach /\ ~s.cut => thief \in DOMAIN Q
        /\ ~reach => StIds(Q, thief) \ Gone(s) = StIds(P, thief) \ Gone(s)
        /\ (reach /\ Quiet(s, P, don) /\ Quiet(s, P, thief)) =>
             /\ s.rn = Cardinality(StIds(Q, thief)) - Cardinality(StIds(P, thief))
             \* Whole groups.
             /\ StIds(Q, thief) = StIds(P, thief) \cup UNION taken
             /\ StIds(Q, don) = StIds(P, don) \ UNION taken
             /\ NEGroups(Q, thief) = NEGroups(P, thief) \cup taken
             /\ NEGroups(Q, don) = NEGroups(P, don) \ taken
             \* Until the limit is reached or nothing is left to take.
             /\ (s.n > 0 /\ (s.ok \/ ~s.cut)) => (tot >= s.n \/ \A i \in left : ~Same(P[don].g[i].v, lv))
             /\ (lv.ok /\ StOk(c, P, don)) =>
                \* Nearest first, and none after the limit.
                /\ \A g \in taken, i \in left : Same(P[don].g[i].v, lv) => Near(c, lv, gv(g), P[don].g[i].v)
                /\ taken # {} => \E g \in taken :
                      /\ tot - Cardinality(g) < s.n
                      /\ \A h \in taken : Near(c, lv, gv(h), gv(g))

-----------------------------------------------------------------------------
(* C20  Fidelity: everything the harness saw, in replies and in stores, had *)
(* the vector, payload and expiry that it was inserted with.               *)

C20(c, s, P, Q) == Len(s.bad) = 0 /\ 0 \notin All(Q)

-----------------------------------------------------------------------------
(* C21  HTTP.                                                              *)

C21(c, s, P, Q) ==
    /\ s.op = "hput" =>
         /\ s.err = "none"
         /\ s.status \in {200, 500}
         /\ s.id \notin Gone(s) => (s.status = 200) = (s.id \in All(Q))
         /\ C01(c, s, P, Q)
    /\ s.op = "hquery" =>
         /\ s.err = "none"
         /\ \/ s.status = 200 /\ s.ok
            \/ /\ Unwritable(s) /\ ~s.ok /\ s.out = <<>>
               /\ \E st \in Source(P, s) : \E id \in StIds(P, st) : ~Dp(c, id).js
         /\ C04(c, s, P, Q) /\ C06(c, s, P, Q) /\ (c.odd \/ C10query(c, s, P, Q))
         /\ Len(s.bad) = 0
    /\ s.op = "hbad" => s.err = "none" /\ s.status = 400 /\ P = Q

-----------------------------------------------------------------------------
(* C22  Metadata.                                                          *)

C22(c, s, P, Q) ==
    /\ s.op = "len" /\ Runs(P, s) => s.rn = StLen(P, s.st) /\ StLen(P, s.st) = StLen(Q, s.st)
    /\ s.op = "nss" /\ ~Unreached(s) =>
         LET have == {P[st].ns : st \in {st \in DOMAIN P : P[st].node = s.node}} IN
         Range(s.names) = have /\ Len(s.names) = Cardinality(have) /\ s.err = "none"
    /\ s.op = "meta" /\ ~Unreached(s) =>
         LET have == {st \in DOMAIN P : P[st].node = s.node} IN
         /\ s.err = "none"
         /\ Range(s.meta) = {[ns |-> P[st].ns, c |-> Len(P[st].g), d |-> StLen(P, st)] : st \in have}

-----------------------------------------------------------------------------
(* C25  Redistribution between nodes.                                      *)

C25(c, s, P, Q) ==
    (s.op = "dist" /\ Runs(P, s)) =>
    LET src == s.st
        R == Holders(P, s)
        moved == StIds(P, src) \ (StIds(Q, src) \cup Gone(s))
        nodeOf(id) == {Q[st].node : st \in StoresOf(Q, id)}
        takes(id) == {n \in Ranked(P, s, s.mode, Dp(c, id)) : NodeTakes(c, P, s, n, id)}
        ok == \A n \in R \cup {s.node} : StOk(c, P, Key(n, s.ns))
        quiet == Gone(s) \cap UNION {StIds(P, Key(n, s.ns)) : n \in R \cup {s.node}} = {}
    IN  /\ (s.n <= 0 \/ Len(s.cands) = 0) => moved = {}
        /\ (R \ Range(s.noadd) = {}) => moved = {}
        /\ \A id \in moved : nodeOf(id) \subseteq R \ Range(s.noadd)
        /\ (ok /\ quiet) =>
           \* What is taken; it comes back only if nobody takes it.
           /\ s.node \notin R =>
                 /\ (\A id \in StIds(P, src) : takes(id) # {}) =>
                       EvenlyTaken(P, src, moved, s.n) /\ WorstTaken(c, P, src, moved)
                 /\ Cardinality(moved) <= Max(s.n, 0)
           \* Where it goes. The vectors of the nodes are fetched once in fast
           \* mode, and for each point (when others have been added) in
           \* accurate mode. The sender's own ones change by the removal.
           /\ (s.mode = "fast" \/ Cardinality(moved) = 1) =>
              \A id \in moved : \A d \in nodeOf(id) \cap takes(id), n \in takes(id) \ {s.node} :
                 d # s.node =>
                 NodeNear(c, P, s, s.mode, Dp(c, id), d, n)

-----------------------------------------------------------------------------
(* C24  Unreachable nodes.                                                 *)

Faulty(s) == Cands(s) \cap (Down(s) \cup Range(s.noadd)) # {} \/ (s.op = "steal" /\ (s.from \in Down(s) \/ s.cut))

C24(c, s, P, Q) ==
    /\ Unreached(s) => /\ s.err = "net"
                       /\ s.out = <<>> /\ s.groups = <<>> /\ s.names = <<>> /\ s.meta = <<>>
                       /\ s.vec.x = <<>> /\ s.rn = 0 /\ ~s.ok
                       /\ \A st \in DOMAIN Q : st \in DOMAIN P /\ P[st] = Q[st]
    /\ Faulty(s) /\ ~Unreached(s) =>
         /\ C01(c, s, P, Q) /\ C03(c, s, P, Q) /\ C04(c, s, P, Q) /\ C06(c, s, P, Q)
         /\ C10(c, s, P, Q) /\ C16(c, s, P, Q) /\ C25(c, s, P, Q)
         /\ s.err \in {"none", "ns"}

-----------------------------------------------------------------------------
(* C19  Whatever is asked for, there is an answer, and what is stored is   *)
(* what it should be, so that later answers are right. "raw" are requests  *)
(* on a connection to a node that no client of this repository would send, *)
(* "hodd" ones to the HTTP server; none of them changes anything.          *)

C19(c, s, P, Q) ==
    /\ s.err \in {"none", "ns"} \/ Unreached(s) \/ (s.op = "add" /\ s.node \in Range(s.noadd))
    /\ s.op \in {"raw", "hodd"} => P = Q /\ s.ok
    /\ NoDup(Q) /\ Len(s.bad) = 0
    /\ C01(c, s, P, Q) /\ C02(c, s, P, Q) /\ C03(c, s, P, Q) /\ C04(c, s, P, Q) /\ C11(c, s, P, Q)

-----------------------------------------------------------------------------
Crash(s) == s.err = "panic"
Geometric == {"C08", "C09", "C10", "C14", "C15", "C16", "C25"}
StepProps == {"C01", "C02", "C03", "C04", "C05", "C06", "C08", "C09", "C10", "C11",
              "C14", "C15", "C16", "C19", "C20", "C21", "C22", "C24", "C25"}

Holds(p, c, s, P, Q) ==
    IF Crash(s) THEN FALSE
    \* Where a recording begins, which need not be with nothing.
    ELSE IF s.op = "init" THEN p \in {"C09", "C11", "C20"} =>
        CASE p = "C09" -> C09(c, s, P, Q) [] p = "C11" -> C11(c, s, P, Q) [] OTHER -> C20(c, s, P, Q)
    ELSE IF c.odd /\ p \in Geometric THEN TRUE
    ELSE CASE p = "C01" -> C01(c, s, P, Q)
           [] p = "C02" -> C02(c, s, P, Q)
           [] p = "C03" -> C03(c, s, P, Q)
           [] p = "C04" -> C04(c, s, P, Q)
           [] p = "C05" -> C05(c, s, P, Q)
           [] p = "C06" -> C06(c, s, P, Q)
           [] p = "C08" -> C08(c, s, P, Q)
           [] p = "C09" -> C09(c, s, P, Q)
           [] p = "C10" -> C10(c, s, P, Q)
           [] p = "C11" -> C11(c, s, P, Q)
           [] p = "C14" -> C14(c, s, P, Q)
           [] p = "C15" -> C15(c, s, P, Q)
           [] p = "C16" -> C16(c, s, P, Q)
           [] p = "C19" -> C19(c, s, P, Q)
           [] p = "C20" -> C20(c, s, P, Q)
           [] p = "C21" -> C21(c, s, P, Q)
           [] p = "C22" -> C22(c, s, P, Q)
           [] p = "C24" -> C24(c, s, P, Q)
           [] p = "C25" -> C25(c, s, P, Q)
           [] OTHER -> TRUE
Fails(props, c, s, P, Q) == {p \in props : ~Holds(p, c, s, P, Q)}
=============================================================================
