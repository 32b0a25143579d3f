-------------------------------- MODULE Sys --------------------------------
(***************************************************************************)
(* A whole system (C26): nodes with event loops, which move, split, merge  *)
(* and expire all the time, and clients of all kinds. Observed are the     *)
(* requests of the clients, and what the nodes have before and after, when *)
(* nothing goes on.                                                        *)
(*                                                                         *)
(*   h.expired : points whose time was over at the end, or almost          *)
(*   h.swept   : points whose time was over before the nodes expired for   *)
(*               the last time                                             *)
(*   h.calm    : all nodes answered all the time                           *)
(*   o.mode    : "no": the point was expired from the start, "any": its    *)
(*               time could be over before it was stored                   *)
(*   o.dead    : points whose time was over when the request was sent      *)
(***************************************************************************)
EXTENDS Lin

\* Request i of a service, requests of which do not overlap, was answered with
\* the points nearest to the query. All vectors have the same length.
Dot(a, b) == a[1] * b[1] + a[2] * b[2]
Nearest(h, i) ==
    LET o == h.ops[i]
        before == {j \in 1..(i - 1) : h.ops[j].ns = o.ns}
        out == Range(o.out)
        live == {h.ops[j].id : j \in {k \in before : h.ops[k].op = "hput" /\ h.ops[k].ok}}
                \ UNION {Range(h.ops[j].out) : j \in {k \in before : h.ops[k].drain}}
        sure == live \ Range(h.expired)
    IN  /\ NoDups(o) /\ out \subseteq live
        /\ Len(o.out) >= Min(o.n, Cardinality(sure))
        /\ \A x \in out, y \in sure \ out : Dot(h.vecs[x], o.q) >= Dot(h.vecs[y], o.q)

SysOk(h) ==
    LET exp == Range(h.expired) IN
    \A ns \in Nss(h) :
        LET I == {i \in DOMAIN h.ops : h.ops[i].ns = ns}
            adds == {i \in I : h.ops[i].op \in {"add", "put", "hput"}}
            looks == I \ adds
            takes == {i \in looks : h.ops[i].drain}
            new == {h.ops[i].id : i \in {j \in adds : h.ops[j].ok}}
            tried == {h.ops[i].id : i \in adds}
            gone == UNION {Range(h.ops[i].out) : i \in takes}
            old == Ids(h.before, ns)
            now == {j \in DOMAIN h.after : h.after[j].ns = ns}
            left == Ids(h.after, ns)
        IN  \* Nothing is lost, and nothing comes from nowhere.
            /\ left \subseteq (old \cup new) \ gone
            /\ (old \cup new) \ (gone \cup exp) \subseteq left
            \* Once, on one node.
            /\ SumLen(h.after, now) = Cardinality(left)
            /\ left \cap Range(h.swept) = {}
            /\ \A i \in adds :
                 LET o == h.ops[i] IN
                 /\ o.mode = "no" => ~o.ok
                 /\ (h.calm /\ o.mode = "") => o.ok
                 /\ h.calm => o.err = "none"
            /\ \A i \in looks :
                 LET o == h.ops[i]  out == Range(o.out) IN
                 /\ \A x \in out : \/ x \in old
                                   \/ \E j \in adds : h.ops[j].id = x /\ h.ops[j].inv < o.ret
                 /\ out \cap Range(o.dead) = {}
                 /\ \A j \in takes : h.ops[j].ret < o.inv => Range(h.ops[j].out) \cap out = {}
                 /\ Len(o.out) <= o.n
                 /\ o.op = "hquery" => o.err = "none" /\ o.ok
                 /\ o.op = "knn" /\ h.calm => o.err \in {"none", "ns"}
            /\ \A i \in takes : NoDups(h.ops[i])
            /\ \A i, j \in takes : i # j => Range(h.ops[i].out) \cap Range(h.ops[j].out) = {}
            \* A service with one node and one group of points gives the nearest ones.
            /\ h.op = "service" => \A i \in looks : Nearest(h, i)
            \* The last request of all takes what is there.
            /\ h.op = "final" => left \subseteq exp
=============================================================================
