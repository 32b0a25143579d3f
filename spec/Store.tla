-------------------------------- MODULE Store --------------------------------
(***************************************************************************)
(* Design of the stores: the algorithms by which trypo keeps points in     *)
(* groups (centroids) of a store (centroid manager), and by which nodes    *)
(* exchange points, written as functions on the state. Every transition is *)
(* checked against the contract (Contract.tla), which says what the        *)
(* operations are to achieve but not how: TLC enumerates all states that   *)
(* the algorithms reach with a few points, and all operations in each of   *)
(* them.                                                                   *)
(*                                                                         *)
(* The same state graph generates the scripts which the harness replays on *)
(* the implementation (driver "script"): h is the history of operations by *)
(* which TLC reached a state first. It is not part of the VIEW, so that    *)
(* every transition of the graph yields one script (see Emit).             *)
(*                                                                         *)
(* A store is [v, g], g a sequence of groups [v, d], d a sequence of ids.  *)
(* The coordinates of the points are such that all means which occur are   *)
(* integers; Div insists on that.                                          *)
(***************************************************************************)
EXTENDS Contract, TLC, Json

CONSTANTS Pts,     \* the vectors of the points (a sequence of sequences),
          Qs,      \* vectors to look for,
          Thr,     \* size at which a group is split, 0: never,
          MaxG,    \* explore states up to this number of groups in a store,
          MaxL,    \* and this depth,
          Nodes,   \* nodes; {} for a library store,
          Mortal,  \* points that can expire,
          MaxDown, \* how many nodes can be unreachable at a time,
          Ops,     \* operations to explore,
          Bug      \* a wrong variant of the design, or "none"

VARIABLES S, D, down, h, bad
vars == <<S, D, down, h, bad>>
NS == "n"
Id == DOMAIN Pts

-----------------------------------------------------------------------------
(* Sequences.                                                              *)

RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
RECURSIVE SetToSeq(_)
SetToSeq(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE x \in X : TRUE IN <<x>> \o SetToSeq(X \ {x})
SetToSeqs(X) == {f \in [1..Cardinality(X) -> X] : \A i, j \in DOMAIN f : i # j => f[i] # f[j]}
RECURSIVE FlattenSeq(_)
FlattenSeq(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o FlattenSeq(Tail(ss))

-----------------------------------------------------------------------------
(* Vectors.                                                                *)

VAdd(a, b) == [i \in DOMAIN a |-> a[i] + b[i]]
VSub(a, b) == [i \in DOMAIN a |-> a[i] - b[i]]
VMul(a, k) == [i \in DOMAIN a |-> a[i] * k]
Div(a, k) == IF a % k = 0 THEN a \div k ELSE Assert(FALSE, <<"not exact", a, k>>)
VDiv(a, k) == [i \in DOMAIN a |-> Div(a[i], k)]
RECURSIVE VSum(_)
VSum(vs) == IF Len(vs) = 1 THEN vs[1] ELSE VAdd(vs[1], VSum(Tail(vs)))
Mean(vs) == VDiv(VSum(vs), Len(vs))

\* The k nearest (furthest) of a pool of vectors, as indices, ties in order.
Search(q, pool, k, nearest) ==
    LET idx == SelectSeq([i \in 1..Len(pool) |-> i], LAMBDA i : Len(pool[i]) = Len(q))
        dist == [i \in 1..Len(pool) |-> IF Len(pool[i]) = Len(q) THEN SqDist(q, pool[i]) ELSE 0]
        before(i, j) == IF dist[i] # dist[j] THEN (dist[i] < dist[j]) = nearest ELSE i < j
        all == SortSeq(idx, before)
    IN  SubSeq(all, 1, Min(Max(k, 0), Len(all)))
KNN(q, pool, k) == Search(q, pool, k, TRUE)
KFN(q, pool, k) == Search(q, pool, k, FALSE)

-----------------------------------------------------------------------------
(* Groups. dead: the points that have expired.                             *)

Vecs(d) == [i \in DOMAIN d |-> Pts[d[i]]]
RmAt(g, i) ==
    [v |-> IF Len(g.d) > 1 /\ Bug # "stalevec"
           THEN VDiv(VSub(VMul(g.v, Len(g.d)), Pts[g.d[i]]), Len(g.d) - 1) ELSE g.v,
     d |-> RemoveAt(g.d, i)]
GAdd(g, id, dead) ==
    IF id \in dead \/ Len(Pts[id]) # Len(g.v) THEN [ok |-> FALSE, g |-> g]
    ELSE [ok |-> TRUE, g |-> [v |-> VDiv(VAdd(VMul(g.v, Len(g.d)), Pts[id]), Len(g.d) + 1), d |-> Append(g.d, id)]]
RECURSIVE GAddAll(_, _, _)
GAddAll(g, ids, dead) == IF ids = <<>> THEN g ELSE GAddAll(GAdd(g, ids[1], dead).g, Tail(ids), dead)
RECURSIVE PurgeFrom(_, _, _)
PurgeFrom(g, i, dead) == IF i > Len(g.d) THEN g
                         ELSE IF g.d[i] \in dead THEN PurgeFrom(RmAt(g, i), i, dead)
                         ELSE PurgeFrom(g, i + 1, dead)
Purge(g, dead) == PurgeFrom(g, 1, dead)
\* Removes the points at some indices, the last one first.
RECURSIVE RmSet(_, _)
RmSet(g, I) == IF I = {} THEN g ELSE LET i == MaxOf(I) IN RmSet(RmAt(g, i), I \ {i})

RECURSIVE GDrainU(_, _, _, _)
GDrainU(g, n, dead, res) ==
    IF g.d = <<>> \/ Len(res) >= n THEN [g |-> g, out |-> res]
    ELSE GDrainU(RmAt(g, 1), n, dead, IF g.d[1] \in dead THEN res ELSE Append(res, g.d[1]))
GTake(g, q, n, dead, search(_, _, _)) ==
    LET p == IF Bug = "serve" THEN g ELSE Purge(g, dead)
        idx == search(q, Vecs(p.d), n)
    IN  [g |-> RmSet(p, Range(idx)), out |-> [i \in DOMAIN idx |-> p.d[idx[i]]], kept |-> p]
GDrainO(g, n, dead) == IF Bug = "bestfirst" THEN GTake(g, g.v, n, dead, KNN) ELSE GTake(g, g.v, n, dead, KFN)
GMove(g, dead) == LET p == Purge(g, dead) IN
                  IF p.d = <<>> THEN p ELSE [p EXCEPT !.v = Mean(Vecs(p.d))]
GTrim(g, dead) ==
    LET r == GDrainU(g, Len(g.d), dead, <<>>) IN
    IF Bug = "trimvec" THEN [r.g EXCEPT !.d = r.out] ELSE GMove([r.g EXCEPT !.d = r.out], dead)

-----------------------------------------------------------------------------
(* Stores.                                                                 *)

GVecs(M) == [i \in DOMAIN M.g |-> M.g[i].v]
\* The group i is replaced; the vector of the store follows.
Put(M, i, g) ==
    [v |-> VDiv(VAdd(VSub(VMul(M.v, Len(M.g)), M.g[i].v), g.v), Len(M.g)),
     g |-> [M.g EXCEPT ![i] = g]]
Refresh(M) == IF M.g = <<>> THEN M ELSE [M EXCEPT !.v = Mean(GVecs(M))]

\* Splits n points off the group i.
SplitOff(M, i, n, dead) ==
    LET r == GDrainU(M.g[i], n, dead, <<>>) IN
    [old |-> r.g, new |-> GAddAll([v |-> M.g[i].v, d |-> <<>>], r.out, dead)]

Add(M, id, dead) ==
    IF id \in dead THEN [ok |-> FALSE, M |-> M]
    ELSE IF M.g = <<>> THEN [ok |-> TRUE, M |-> [v |-> Pts[id], g |-> <<[v |-> Pts[id], d |-> <<id>>]>>]]
    ELSE LET idx == KNN(Pts[id], GVecs(M), 1) IN
         IF idx = <<>> THEN [ok |-> FALSE, M |-> M]
         ELSE LET i == idx[1]
                  N == Put(M, i, GAdd(M.g[i], id, dead).g)
                  half == IF Bug = "splitall" THEN Thr - 1 ELSE Thr \div 2
                  r == SplitOff(N, i, half, dead)
              IN  [ok |-> TRUE,
                   M |-> IF Len(N.g[i].d) >= Thr /\ half > 0
                         THEN Refresh([N EXCEPT !.g = Append([@ EXCEPT ![i] = r.old], r.new)])
                         ELSE N]

\* How many points to take of each group: round robin.
RECURSIVE Portions(_, _, _, _)
Portions(M, n, i, p) ==
    LET left == {j \in DOMAIN M.g : Len(M.g[j].d) > p[j]} IN
    IF n <= 0 \/ left = {} THEN p
    ELSE IF i > Len(M.g) THEN Portions(M, n, 1, p)
    ELSE IF i \in left /\ Bug = "greedy" THEN Portions(M, n - Min(n, Len(M.g[i].d) - p[i]), i + 1,
                                                       [p EXCEPT ![i] = @ + Min(n, Len(M.g[i].d) - p[i])])
    ELSE IF i \in left THEN Portions(M, n - 1, i + 1, [p EXCEPT ![i] = @ + 1])
    ELSE Portions(M, n, i + 1, p)
Share(M, n) == Portions(M, n, 1, [i \in DOMAIN M.g |-> 0])

RECURSIVE DrainFrom(_, _, _, _, _, _)
DrainFrom(M, i, p, ordered, dead, out) ==
    IF i > Len(M.g) THEN [M |-> M, out |-> out]
    ELSE IF p[i] = 0 THEN DrainFrom(M, i + 1, p, ordered, dead, out)
    ELSE LET r == IF ordered THEN GDrainO(M.g[i], p[i], dead) ELSE GDrainU(M.g[i], p[i], dead, <<>>) IN
         DrainFrom(Put(M, i, r.g), i + 1, p, ordered, dead, out \o r.out)
Drain(M, n, ordered, dead) == DrainFrom(M, 1, Share(M, n), ordered, dead, <<>>)

RECURSIVE ExpireFrom(_, _, _)
ExpireFrom(M, i, dead) == IF i > Len(M.g) THEN M ELSE ExpireFrom(Put(M, i, Purge(M.g[i], dead)), i + 1, dead)
Trim(M, dead) == Refresh([M EXCEPT !.g = SelectSeq([i \in DOMAIN @ |-> GTrim(@[i], dead)], LAMBDA g : g.d # <<>>)])
Move(M, dead) == Refresh([M EXCEPT !.g = [i \in DOMAIN @ |-> GMove(@[i], dead)]])

\* The points ids, taken of the group i, go to the nearest groups.
RECURSIVE Deliver(_, _, _, _)
Deliver(M, i, ids, dead) ==
    IF ids = <<>> THEN M
    ELSE LET idx == KNN(Pts[ids[1]], GVecs(M), 1)
             k == IF idx = <<>> THEN i ELSE idx[1]
             r == GAdd(M.g[k], ids[1], dead)
             N == IF r.ok THEN [M EXCEPT !.g[k] = r.g]
                  ELSE [M EXCEPT !.g[i] = GAdd(@, ids[1], dead).g]
         IN  Deliver(N, i, Tail(ids), dead)
RECURSIVE DistFrom(_, _, _, _)
DistFrom(M, order, p, dead) ==
    IF order = <<>> THEN M
    ELSE LET i == order[1]
             r == GDrainO(M.g[i], p[i], dead)
         IN  DistFrom(Deliver([M EXCEPT !.g[i] = r.g], i, r.out, dead), Tail(order), p, dead)
\* The groups are taken in any order.
DistInts(M, n, dead) ==
    IF M.g = <<>> THEN {M}
    ELSE LET p == Share(M, n)
             some == {i \in DOMAIN M.g : p[i] > 0}
         IN  {Move(DistFrom(M, o, p, dead), dead) : o \in SetToSeqs(some)}

RECURSIVE KnnFrom(_, _, _, _, _, _, _)
KnnFrom(M, order, q, k, drain, dead, out) ==
    IF order = <<>> \/ Len(out) >= k THEN [M |-> M, out |-> out]
    ELSE LET i == order[1]
             r == GTake(M.g[i], q, k - Len(out), dead, KNN)
         IN  KnnFrom(Put(M, i, IF drain THEN r.g ELSE r.kept), Tail(order), q, k, drain, dead, out \o r.out)
Lookup(M, q, k, drain, dead) ==
    KnnFrom(M, KNN(q, GVecs(M), IF Bug = "fewgroups" THEN k ELSE Len(M.g)), q, k, drain, dead, <<>>)

\* The nearest groups, as sequences of ids.
NearC(M, q, n, drain) ==
    LET idx == KNN(q, GVecs(M), n)
        keep == SelectSeq([i \in DOMAIN M.g |-> i], LAMBDA i : i \notin Range(idx))
    IN  [groups |-> [i \in DOMAIN idx |-> M.g[idx[i]].d],
         M |-> IF drain /\ idx # <<>> THEN Refresh([M EXCEPT !.g = [i \in DOMAIN keep |-> @[keep[i]]]]) ELSE M]

In(g, mn, mx) == Len(g.d) > mn /\ Len(g.d) < mx
RECURSIVE SplitFrom(_, _, _, _, _, _)
SplitFrom(M, i, mn, mx, dead, new) ==
    IF i > Len(M.g) THEN Refresh([M EXCEPT !.g = @ \o new])
    ELSE IF ~In(M.g[i], mn, mx) \/ Len(M.g[i].d) < 2 THEN SplitFrom(M, i + 1, mn, mx, dead, new)
    ELSE LET r == SplitOff(M, i, Len(M.g[i].d) \div 2, dead) IN
         SplitFrom([M EXCEPT !.g[i] = r.old], i + 1, mn, mx, dead, Append(new, r.new))
Split(M, mn, mx, dead) == SplitFrom(M, 1, mn, mx, dead, <<>>)

\* Groups are joined to the candidate i, nearest first, until it is satisfied.
RECURSIVE Join(_, _, _, _, _, _, _)
Join(M, i, order, gone, mn, mx, dead) ==
    IF order = <<>> THEN [M |-> M, gone |-> gone]
    ELSE LET k == order[1] IN
         IF k = i \/ k \in gone THEN Join(M, i, Tail(order), gone, mn, mx, dead)
         ELSE LET r == GDrainU(M.g[k], Len(M.g[k].d), dead, <<>>)
                  N == [M EXCEPT !.g[i] = GAddAll(@, r.out, dead), !.g[k] = r.g]
              IN  IF In(N.g[i], mn, mx) THEN Join(N, i, Tail(order), gone \cup {k}, mn, mx, dead)
                  ELSE [M |-> N, gone |-> gone \cup {k}]
RECURSIVE MergeFrom(_, _, _, _, _, _)
MergeFrom(M, i, gone, mn, mx, dead) ==
    IF i > Len(M.g)
    THEN LET keep == SelectSeq([j \in DOMAIN M.g |-> j], LAMBDA j : j \notin gone) IN
         Refresh([M EXCEPT !.g = [j \in DOMAIN keep |-> @[keep[j]]]])
    ELSE IF ~In(M.g[i], mn, mx) \/ (i \in gone /\ Bug # "remerge") THEN MergeFrom(M, i + 1, gone, mn, mx, dead)
    ELSE LET r == Join(M, i, KNN(M.g[i].v, GVecs(M), Len(M.g)), gone, mn, mx, dead) IN
         MergeFrom(r.M, i + 1, r.gone, mn, mx, dead)
Merge(M, mn, mx, dead) == MergeFrom(M, 1, {}, mn, mx, dead)

-----------------------------------------------------------------------------
(* Nodes. T: all stores, as a function from nodes; nodes without the       *)
(* namespace are not in its domain.                                        *)

Lib == Nodes = {}
Places == IF Lib THEN {"-"} ELSE Nodes

AddAt(T, n, id, dead) ==
    IF n \in down THEN [ok |-> FALSE, T |-> T]
    ELSE LET r == Add(IF n \in DOMAIN T THEN T[n] ELSE [v |-> Pts[id], g |-> <<>>], id, dead) IN
         [ok |-> r.ok, T |-> IF r.ok \/ Bug = "emptyns" THEN (n :> r.M) @@ T ELSE T]
RECURSIVE TryAdd(_, _, _, _)
TryAdd(T, order, id, dead) ==
    IF order = <<>> THEN [ok |-> FALSE, T |-> T]
    ELSE LET r == AddAt(T, order[1], id, dead) IN
         IF r.ok THEN r ELSE TryAdd(r.T, Tail(order), id, dead)

\* What is fetched of the nodes of a sequence, in the order of arrival.
Fetch(T, mode, q, order) ==
    LET has == SelectSeq(order, LAMBDA n : n \notin down /\ n \in DOMAIN T /\
                             (mode = "fast" \/ KNN(q, GVecs(T[n]), 1) # <<>>))
    IN  [nodes |-> has,
         vecs |-> [i \in DOMAIN has |-> IF mode = "fast" THEN T[has[i]].v
                                        ELSE T[has[i]].g[KNN(q, GVecs(T[has[i]]), 1)[1]].v]]
RankIn(f, q) == LET idx == KNN(q, f.vecs, Len(f.vecs)) IN [i \in DOMAIN idx |-> f.nodes[idx[i]]]
Ranking(T, mode, q, order) == IF mode = "rand" THEN order ELSE RankIn(Fetch(T, mode, q, order), q)

RECURSIVE Ask(_, _, _, _, _, _, _)
Ask(T, order, q, n, drain, dead, out) ==
    IF order = <<>> \/ (Len(out) >= n) THEN [T |-> T, out |-> out]
    ELSE LET a == order[1] IN
         IF a \in down \/ a \notin DOMAIN T THEN Ask(T, Tail(order), q, n, drain, dead, out)
         ELSE LET r == Lookup(T[a], q, IF Bug = "overask" THEN n ELSE n - Len(out), drain, dead) IN
              Ask([T EXCEPT ![a] = r.M], Tail(order), q, n, drain, dead, out \o r.out)

RECURSIVE Send(_, _, _, _, _, _, _)
Send(T, src, mode, f, order, ids, dead) ==
    IF ids = <<>> THEN T
    ELSE LET x == Pts[ids[1]]
             rank == RankIn(IF mode = "fast" THEN f ELSE Fetch(T, mode, x, order), x)
             r == TryAdd(T, rank, ids[1], dead)
             U == IF r.ok THEN r.T
                  ELSE IF Bug = "nohome" THEN T ELSE [T EXCEPT ![src] = Add(@, ids[1], dead).M]
         IN  Send(U, src, mode, f, order, Tail(ids), dead)
Dist(T, src, mode, order, n, dead) ==
    IF order = <<>> THEN T
    ELSE LET r == Drain(T[src], n, TRUE, dead)
             U == [T EXCEPT ![src] = r.M]
         IN  IF r.out = <<>> THEN U ELSE Send(U, src, mode, Fetch(U, mode, Pts[1], order), order, r.out, dead)

RECURSIVE Rob(_, _, _, _, _, _, _)
Rob(T, thief, from, q, limit, dead, got) ==
    IF got >= limit THEN [T |-> T, got |-> got]
    ELSE LET r == NearC(T[from], q, 1, TRUE) IN
         IF r.groups = <<>> THEN [T |-> T, got |-> got]
         ELSE LET U == [T EXCEPT ![from] = r.M]
                  ids == r.groups[1]
                  live == SelectSeq(ids, LAMBDA id : id \notin dead)
              IN  IF ids = <<>> THEN Rob(U, thief, from, q, limit, dead, got)
                  ELSE Rob([U EXCEPT ![thief].g = Append(@, GMove([v |-> Pts[ids[1]], d |-> ids], dead))],
                           thief, from, q, limit, dead, got + Len(live))
Steal(T, thief, from, n, dead) ==
    LET seen == from \notin down /\ from \in DOMAIN T
        own == thief \in DOMAIN T
    IN  IF ~own /\ ~seen THEN [T |-> T, got |-> 0, ok |-> FALSE]
        ELSE LET q == IF own THEN T[thief].v ELSE T[from].v
                 U == IF own THEN T ELSE (thief :> [v |-> q, g |-> <<>>]) @@ T
                 size == SumSeq([i \in DOMAIN U[from].g |-> Len(U[from].g[i].d)])
                 r == IF seen THEN Rob(U, thief, from, q, IF n > 0 THEN Min(n, size) ELSE n, dead, 0)
                      ELSE [T |-> U, got |-> 0]
             IN  [T |-> [r.T EXCEPT ![thief] = Move(@, dead)], got |-> r.got,
                  ok |-> IF seen THEN TRUE ELSE n <= 0]

-----------------------------------------------------------------------------
(* What the contract is about.                                             *)

V(x) == [x |-> x, u |-> <<>>, ok |-> TRUE, in |-> TRUE, fin |-> TRUE]
Proj(T) == [st \in {Key(n, NS) : n \in DOMAIN T} |->
              LET n == CHOOSE n \in DOMAIN T : Key(n, NS) = st IN
              [node |-> n, ns |-> NS, kind |-> "cm", v |-> V(T[n].v),
               g |-> [i \in DOMAIN T[n].g |-> [v |-> V(T[n].g[i].v), d |-> T[n].g[i].d]]]]
Ctx == [metric |-> "euc", dps |-> [i \in Id |-> V(Pts[i])], exact |-> TRUE, odd |-> FALSE]
Base == [op |-> "", via |-> IF Lib THEN "lib" ELSE "rpc", node |-> "-", ns |-> NS, st |-> "", err |-> "none",
         id |-> 0, q |-> V(<<>>), n |-> 0, drain |-> FALSE, mn |-> 0, mx |-> 0, mode |-> "", cands |-> <<>>,
         from |-> "", valid |-> TRUE, thr |-> Thr, out |-> <<>>, groups |-> <<>>, vec |-> V(<<>>), ok |-> FALSE,
         rn |-> 0, names |-> <<>>, meta |-> <<>>, status |-> 0, noadd |-> <<>>, cut |-> FALSE, dups |-> FALSE,
         recv |-> <<>>, dead |-> <<>>, fuzzy |-> <<>>, down |-> <<>>, bad |-> <<>>, drop |-> <<>>]

-----------------------------------------------------------------------------
(* Operations: the requests, and what can come of them.                    *)

Num == 0..3
Many == {1, Len(Pts)}
Rng == {<<0, 9>>, <<1, 9>>, <<0, 2>>, <<0, 3>>, <<1, 3>>, <<-1, 2>>}
R == [Base EXCEPT !.dead = SetToSeq(D), !.down = SetToSeq(down)]
At(n, op) == [R EXCEPT !.op = op, !.node = n, !.st = Key(n, NS)]
Reach(n) == n \notin down

\* A step, its script entry, and the stores after it.
Res(s, e, T) == [s |-> s, e |-> e, T |-> T]
Fail(n, s, e) == Res([s EXCEPT !.err = IF Reach(n) THEN "ns" ELSE "net"], e, S)
\* An operation on the store of a node; f gives the results if it exists.
On(n, s, e, f) == IF Reach(n) /\ n \in DOMAIN S THEN f ELSE {Fail(n, s, e)}

Results1(op, n) ==
    CASE op = "add" ->
           {LET s == [At(n, "add") EXCEPT !.id = id]
                e == <<"add", n, id>>
            IN  IF ~Reach(n) THEN Fail(n, s, e)
                ELSE LET r == AddAt(S, n, id, D) IN Res([s EXCEPT !.ok = r.ok], e, r.T)
            : id \in {id \in Id : \A m \in DOMAIN S : \A i \in DOMAIN S[m].g : id \notin Range(S[m].g[i].d)}}
      [] op \in {"drainU", "drainO"} ->
           UNION {LET s == [At(n, op) EXCEPT !.n = k]
                      e == <<op, n, k>>
                  IN  On(n, s, e, LET r == Drain(S[n], k, op = "drainO", D) IN
                                  {Res([s EXCEPT !.out = r.out], e, [S EXCEPT ![n] = r.M])})
                  : k \in Num}
      [] op \in {"expire", "memtrim", "movevec"} ->
           LET s == At(n, op)
               e == <<op, n>>
               M == IF op = "expire" THEN ExpireFrom(S[n], 1, D)
                    ELSE IF op = "memtrim" THEN Trim(S[n], D) ELSE Move(S[n], D)
           IN  On(n, s, e, {Res([s EXCEPT !.ok = (op = "movevec" /\ S[n].g # <<>>)], e, [S EXCEPT ![n] = M])})
      [] op = "distint" ->
           UNION {LET s == [At(n, op) EXCEPT !.n = k]
                      e == <<op, n, k>>
                  IN  On(n, s, e, {Res(s, e, [S EXCEPT ![n] = M]) : M \in DistInts(S[n], k, D)})
                  : k \in Num}
      [] op = "knn" ->
           UNION {LET s == [At(n, op) EXCEPT !.q = V(Qs[x[1]]), !.n = x[2], !.drain = x[3]]
                      e == <<op, n, x[1], x[2], IF x[3] THEN 1 ELSE 0>>
                  IN  On(n, s, e, LET r == Lookup(S[n], Qs[x[1]], x[2], x[3], D) IN
                                  {Res([s EXCEPT !.out = r.out], e, [S EXCEPT ![n] = r.M])})
                  : x \in (DOMAIN Qs) \X {1, 2, 9} \X BOOLEAN}
      [] op = "nearc" ->
           UNION {LET s == [At(n, op) EXCEPT !.q = V(Qs[x[1]]), !.n = x[2], !.drain = x[3]]
                      e == <<op, n, x[1], x[2], IF x[3] THEN 1 ELSE 0>>
                  IN  On(n, s, e, LET r == NearC(S[n], Qs[x[1]], x[2], x[3])
                                      live == [i \in DOMAIN r.groups |-> IF Lib THEN r.groups[i]
                                                 ELSE SelectSeq(r.groups[i], LAMBDA id : id \notin D)]
                                      gs == IF Lib THEN live ELSE SelectSeq(live, LAMBDA x_ : x_ # <<>>)
                                  IN  {Res([s EXCEPT !.groups = gs, !.out = FlattenSeq(gs)], e, [S EXCEPT ![n] = r.M])})
                  : x \in (DOMAIN Qs) \X {1, 2} \X BOOLEAN}
      [] op \in {"split", "merge"} ->
           UNION {LET s == [At(n, op) EXCEPT !.mn = x[1], !.mx = x[2]]
                      e == <<op, n, x[1], x[2]>>
                  IN  On(n, s, e, {Res(s, e, [S EXCEPT ![n] = IF op = "split" THEN Split(@, x[1], x[2], D)
                                                                ELSE Merge(@, x[1], x[2], D)])})
                  : x \in Rng}
      [] op = "dist" ->
           UNION {LET s == [At(n, op) EXCEPT !.mode = x[1], !.n = x[2], !.cands = SetToSeq(x[3])]
                      e == <<op, n, x[1], x[2], SetToSeq(x[3])>>
                  IN  On(n, s, e, {Res(s, e, Dist(S, n, x[1], o, x[2], D)) : o \in SetToSeqs(x[3])})
                  : x \in {"fast", "accurate"} \X Many \X {Nodes, Nodes \ {n}}}
      [] op = "steal" ->
           UNION {LET s == [At(n, op) EXCEPT !.from = x[1], !.n = x[2]]
                      e == <<op, n, x[1], x[2]>>
                  IN  IF ~Reach(n) THEN {Fail(n, s, e)}
                      ELSE LET r == Steal(S, n, x[1], x[2], D) IN {Res([s EXCEPT !.ok = r.ok, !.rn = r.got], e, r.T)}
                  : x \in (Nodes \ {n}) \X Many}
      [] OTHER -> {}

Results0(op) ==
    CASE op = "put" ->
           {LET s == [R EXCEPT !.op = op, !.mode = x[1], !.id = x[2], !.cands = SetToSeq(Nodes)]
                r == TryAdd(S, Ranking(S, x[1], Pts[x[2]], x[3]), x[2], D)
                \* where it ended up, to get there again
                at == {n \in DOMAIN r.T : \E i \in DOMAIN r.T[n].g : x[2] \in Range(r.T[n].g[i].d)}
                e == <<op, x[1], x[2], SetToSeq(at)>>
            IN  Res([s EXCEPT !.ok = r.ok], e, r.T)
            : x \in {"rand", "fast", "accurate"}
                    \X {id \in Id : \A m \in DOMAIN S : \A i \in DOMAIN S[m].g : id \notin Range(S[m].g[i].d)}
                    \X SetToSeqs(Nodes)}
      [] op = "query" ->
           {LET s == [R EXCEPT !.op = op, !.mode = x[1], !.q = V(Qs[x[2]]), !.n = x[3], !.drain = x[4],
                      !.cands = SetToSeq(Nodes)]
                e == <<op, x[1], x[2], x[3], IF x[4] THEN 1 ELSE 0>>
                r == Ask(S, Ranking(S, x[1], Qs[x[2]], x[5]), Qs[x[2]], x[3], x[4], D, <<>>)
            IN  Res([s EXCEPT !.out = r.out], e, r.T)
            : x \in {"rand", "fast", "accurate"} \X (DOMAIN Qs) \X {1, 2, Len(Pts)} \X BOOLEAN \X SetToSeqs(Nodes)}
      [] OTHER -> {}

Results == UNION {Results0(op) : op \in Ops} \cup UNION {Results1(x[1], x[2]) : x \in Ops \X Places}

Init == /\ S = IF Lib THEN [n \in {"-"} |-> [v |-> [i \in DOMAIN Pts[1] |-> 0], g |-> <<>>]] ELSE <<>>
        /\ D = {} /\ down = {}
        /\ h = <<>>
        /\ bad = {}
Operate == \E r \in Results :
              /\ S' = r.T
              /\ h' = Append(h, r.e)
              /\ bad' = Fails(StepProps, Ctx, r.s, Proj(S), Proj(r.T))
              /\ (bad' # {} => PrintT(<<"DESIGN", bad', r.s, S, r.T>>))
              /\ UNCHANGED <<D, down>>
\* A stored point expires (others would only be refused).
Die == \E id \in Mortal \ D :
          /\ D' = D \cup {id}
          /\ h' = Append(h, <<"die", id>>)
          /\ UNCHANGED <<S, down, bad>>
Fault == \E n \in Nodes :
          /\ down' = IF n \in down THEN down \ {n} ELSE down \cup {n}
          /\ Cardinality(down') <= MaxDown
          /\ h' = Append(h, <<IF n \in down THEN "up" ELSE "down", n>>)
          /\ UNCHANGED <<S, D, bad>>
Next == bad = {} /\ (Operate \/ Die \/ Fault)
Spec == Init /\ [][Next]_vars

Allowed == bad = {}
View == <<S, D, down, bad>>
Bound == /\ \A n \in DOMAIN S : Len(S[n].g) <= MaxG
         /\ TLCGet("level") <= MaxL
\* Prints the script of every transition, and the instance they are for.
Emit == PrintT((IF S' = S /\ D' = D /\ down' = down THEN "PROBE " ELSE "SCRIPT ") \o ToJson(h'))
Instance == PrintT("HEAD " \o ToJson([nodes |-> SetToSeq(Nodes), thr |-> Thr, pts |-> Pts, qs |-> Qs]))
ASSUME Instance
=============================================================================
