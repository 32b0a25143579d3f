-------------------------------- MODULE Life --------------------------------
(***************************************************************************)
(* Starting and stopping nodes and HTTP servers, and what belongs to whom  *)
(* (C27). A node (srv) has a table of namespaces, which exists whether the *)
(* node is being served or not; starting it gives a handle with which that *)
(* start is undone.                                                        *)
(*                                                                         *)
(* A state S has the fields                                                *)
(*   lis: for each address the handle of what listens there, or 0          *)
(*   h:   for each handle what was started (srv "" for an HTTP server,     *)
(*        which passes requests on to one node, at the address back)       *)
(*   d:   for each node, the points of each of its namespaces              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Range(f) == {f[i] : i \in DOMAIN f}
At(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
With(f, x, y) == [z \in DOMAIN f \cup {x} |-> IF z = x THEN y ELSE f[z]]
None == <<>>
Empty == [lis |-> None, h |-> <<>>, d |-> None]

Free(S, a) == At(S.lis, a, 0) = 0
\* The node that answers requests to an address ("": there is none).
Serves(S, a) == IF Free(S, a) THEN "" ELSE S.h[S.lis[a]].srv
\* The node that an HTTP server asks.
Behind(S, a) == IF Free(S, a) \/ S.h[S.lis[a]].srv # "" THEN "" ELSE Serves(S, S.h[S.lis[a]].back)
Http(S, a) == ~Free(S, a) /\ S.h[S.lis[a]].srv = ""
Tab(S, n) == At(S.d, n, None)
Pts(S, n, ns) == At(Tab(S, n), ns, {})

SameSet(seq, D) == Range(seq) = D /\ Len(seq) = Cardinality(D)

Ok(S, s) ==
    CASE s.op = "start" -> s.ok = Free(S, s.addr)
      [] s.op = "stop" -> TRUE
      [] s.op = "hstart" -> s.ok = (s.backs /\ Free(S, s.addr))
      [] s.op = "put" -> IF Serves(S, s.addr) = "" THEN ~s.ok /\ s.err = "net" ELSE s.ok /\ s.err = "none"
      [] s.op \in {"get", "take"} ->
            LET n == Serves(S, s.addr) IN
            IF n = "" THEN s.out = <<>> /\ s.err = "net"
            ELSE IF s.ns \notin DOMAIN Tab(S, n) THEN s.out = <<>> /\ s.err = "ns"
            ELSE SameSet(s.out, Pts(S, n, s.ns)) /\ s.err = "none"
      [] s.op = "nss" ->
            LET n == Serves(S, s.addr) IN
            IF n = "" THEN s.names = <<>> /\ s.err = "net" ELSE SameSet(s.names, DOMAIN Tab(S, n)) /\ s.err = "none"
      \* By way of the table of the node in the process.
      [] s.op = "tnss" -> SameSet(s.names, DOMAIN Tab(S, s.srv))
      [] s.op = "tacc" -> /\ s.ok = (s.ns \in DOMAIN Tab(S, s.srv))
                          /\ s.n = Cardinality(Pts(S, s.srv, s.ns))
      [] s.op = "reset" -> TRUE
      [] s.op = "slot" -> ~s.ok       \* a slot without a store
      \* By HTTP.
      [] s.op = "hput" -> s.status = IF ~Http(S, s.addr) THEN 0 ELSE IF Behind(S, s.addr) = "" THEN 500 ELSE 200
      [] s.op = "hget" -> /\ s.status = (IF Http(S, s.addr) THEN 200 ELSE 0)
                          /\ SameSet(s.out, IF Behind(S, s.addr) = "" THEN {} ELSE Pts(S, Behind(S, s.addr), s.ns))
      [] s.op = "new" -> s.ok = (s.knn /\ s.kfn)

Put(S, n, ns, D) == [S EXCEPT !.d = With(@, n, With(Tab(S, n), ns, D))]
Started(S, a, srv, back) ==
    [S EXCEPT !.h = Append(@, [srv |-> srv, addr |-> a, back |-> back]), !.lis = With(@, a, Len(S.h) + 1)]

After(S, s) ==
    CASE s.op = "start" -> IF s.ok THEN Started(S, s.addr, s.srv, "") ELSE S
      [] s.op = "hstart" -> IF s.ok THEN Started(S, s.addr, "", s.back) ELSE S
      [] s.op = "stop" -> LET a == S.h[s.h].addr IN IF S.lis[a] = s.h THEN [S EXCEPT !.lis = With(@, a, 0)] ELSE S
      [] s.op = "put" /\ s.ok -> LET n == Serves(S, s.addr) IN Put(S, n, s.ns, Pts(S, n, s.ns) \cup {s.id})
      [] s.op = "take" /\ s.err = "none" -> Put(S, Serves(S, s.addr), s.ns, {})
      [] s.op = "hput" /\ s.status = 200 -> LET n == Behind(S, s.addr) IN Put(S, n, s.ns, Pts(S, n, s.ns) \cup {s.id})
      [] s.op = "reset" -> [S EXCEPT !.d = With(@, s.srv, None)]
      [] OTHER -> S
=============================================================================
