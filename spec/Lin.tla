-------------------------------- MODULE Lin ---------------------------------
(***************************************************************************)
(* The sequential behaviour of a node, and what it means that a history of *)
(* concurrent requests is explained by it (C12): there is an order of the  *)
(* requests, in which a request that returned before another one was       *)
(* invoked comes first, such that all replies and the content afterwards   *)
(* are those of the sequential execution in that order.                    *)
(*                                                                         *)
(* The state of a node is the set of points of each existing namespace:    *)
(* a function from namespaces to sets of points. Which points a lookup     *)
(* picks is not looked at here (C08), only how many, and from where.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Range(f) == {f[i] : i \in DOMAIN f}
Min(a, b) == IF a < b THEN a ELSE b

NoDups(o) == Cardinality(Range(o.out)) = Len(o.out)

\* The reply of request o is right in state S.
Legal(o, S) ==
    LET ex == o.ns \in DOMAIN S
        D == IF ex THEN S[o.ns] ELSE {}
        out == Range(o.out)
    IN  CASE o.op = "create" -> ~ex          \* (otherwise it is nothing, see Left)
          [] o.op = "add" -> (o.ok => ex) /\ o.err = "none" /\ o.ok = o.valid
          [] o.op = "nss" -> o.err = "none" /\ Range(o.names) = DOMAIN S
          [] o.op = "meta" -> o.err = "none" /\ o.ok = ex /\ (ex => o.rn = Cardinality(D))
          [] ~ex -> o.err = "ns" /\ o.out = <<>> /\ o.rn = 0
          [] o.op \in {"knn", "drain"} ->
                /\ o.err = "none" /\ NoDups(o) /\ out \subseteq D
                /\ Len(o.out) = Min(o.n, Cardinality(D))
          [] o.op = "nearc" ->
                /\ o.err = "none" /\ NoDups(o) /\ out \subseteq D
                /\ o.n >= 1000 => out = D
          [] o.op = "len" -> o.err = "none" /\ o.rn = Cardinality(D)
          [] o.op = "other" -> o.err = "none"

Put(S, ns, D) == [x \in DOMAIN S \cup {ns} |-> IF x = ns THEN D ELSE S[x]]

After(o, S) ==
    IF o.op = "create" THEN Put(S, o.ns, {})
    ELSE IF o.op = "add" THEN IF o.ok THEN Put(S, o.ns, (IF o.ns \in DOMAIN S THEN S[o.ns] ELSE {}) \cup {o.id}) ELSE S
    ELSE IF o.drain /\ o.ns \in DOMAIN S THEN Put(S, o.ns, S[o.ns] \ Range(o.out))
    ELSE S

\* A request that brings a namespace into existence does so before it adds its
\* point, so that others can see the namespace without the point: two steps.
Steps(ops, S) ==
    LET new == {i \in DOMAIN ops : ops[i].op = "add" /\ ops[i].ok /\ ops[i].ns \notin DOMAIN S}
        k == Len(ops)
    IN  [j \in DOMAIN ops \cup {k + i : i \in new} |->
            IF j <= k THEN ops[j] ELSE [ops[j - k] EXCEPT !.op = "create"]]

(* Is there an order of the requests todo (indexes of ops) that leads from  *)
(* S to F?                                                                  *)
Left(ops, todo, S) == {i \in todo : ~(ops[i].op = "create" /\ ops[i].ns \in DOMAIN S)}

\* A request that can be next and changes nothing can as well be the next one.
RECURSIVE Explained(_, _, _, _)
Explained(ops, todo, S, F) ==
    IF todo = {} THEN S = F
    ELSE LET next == {i \in todo : (\A j \in todo : ~(ops[j].ret < ops[i].inv)) /\ Legal(ops[i], S)}
             idle == {i \in next : After(ops[i], S) = S}
         IN  IF idle # {} THEN Explained(ops, Left(ops, todo \ idle, S), S, F)
             ELSE \E i \in next :
                     LET T == After(ops[i], S) IN Explained(ops, Left(ops, todo \ {i}, T), T, F)

Content(c) == [x \in {c[i].ns : i \in DOMAIN c} |-> Range(c[CHOOSE i \in DOMAIN c : c[i].ns = x].ids)]
OnceEach(c) == \A i \in DOMAIN c : Cardinality(Range(c[i].ids)) = Len(c[i].ids)

Linearizable(h) ==
    /\ OnceEach(h.after)
    /\ LET S == Content(h.before)  ops == Steps(h.ops, S) IN Explained(ops, DOMAIN ops, S, Content(h.after))

(* What is reported while others work is what is stored at some moment of    *)
(* the request (C22): if nothing is wrong without the reports, they can be   *)
(* explained as well.                                                        *)
NoReport(o) == o.op \notin {"len", "nss", "meta"}
Reported(h) == Linearizable(h) \/ ~Linearizable([h EXCEPT !.ops = SelectSeq(@, NoReport)])

-----------------------------------------------------------------------------
(* Several nodes, between which points move meanwhile (C03). A point that   *)
(* is being moved is on no node for a while, so that lookups may miss it.   *)

Ids(c, ns) == UNION {Range(c[i].ids) : i \in {j \in DOMAIN c : c[j].ns = ns}}
RECURSIVE SumLen(_, _)
SumLen(c, I) == IF I = {} THEN 0 ELSE LET i == CHOOSE i \in I : TRUE IN Len(c[i].ids) + SumLen(c, I \ {i})
Nss(h) == {h.ops[i].ns : i \in DOMAIN h.ops} \cup {h.before[i].ns : i \in DOMAIN h.before}
               \cup {h.after[i].ns : i \in DOMAIN h.after}

Conserved(h) ==
    \A ns \in Nss(h) :
        LET I == {i \in DOMAIN h.ops : h.ops[i].ns = ns}
            adds == {i \in I : h.ops[i].op \in {"add", "put"}}
            looks == {i \in I : h.ops[i].op \in {"knn", "query", "drain"}}
            takes == {i \in looks : h.ops[i].drain}
            new == {h.ops[i].id : i \in {j \in adds : h.ops[j].ok}}
            gone == UNION {Range(h.ops[i].out) : i \in takes}
            old == Ids(h.before, ns)
            now == {j \in DOMAIN h.after : h.after[j].ns = ns}
        IN  /\ Ids(h.after, ns) = (old \cup new) \ gone
            /\ SumLen(h.after, now) = Cardinality(Ids(h.after, ns))     \* on one node, once
            /\ \A i \in looks :
                 LET o == h.ops[i]  out == Range(o.out) IN
                 \* Known points, which nobody took before.
                 /\ \A x \in out : \/ x \in old
                                   \/ \E j \in adds : h.ops[j].id = x /\ h.ops[j].inv < o.ret
                 /\ \A j \in takes : h.ops[j].ret < o.inv => Range(h.ops[j].out) \cap out = {}
                 /\ Len(o.out) <= o.n
            /\ \A i \in takes : NoDups(h.ops[i])
            /\ \A i, j \in takes : i # j => Range(h.ops[i].out) \cap Range(h.ops[j].out) = {}
            /\ \A i \in adds : h.ops[i].op = "add" => h.ops[i].ok
=============================================================================
