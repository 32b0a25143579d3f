----------------------------- MODULE MCCluster -----------------------------
(* Instances of Cluster.tla.                                               *)
EXTENDS Cluster
CONSTANT Inst
O(k, n) == [NoOp EXCEPT !.kind = k, !.node = n]
Client(N) == {O("add", n) : n \in N} \cup {[O("drain", n) EXCEPT !.n = 2] : n \in N} \cup {O("len", n) : n \in N}
Move(N) == {[O("dist", n) EXCEPT !.to = N, !.n = 2] : n \in N}
           \cup {[O("steal", n) EXCEPT !.from = m, !.n = k] : n \in N, m \in N, k \in {1, 5}}
MCMenu == CASE Inst = "one" -> Client(Nodes)
            [] Inst = "many" -> {o \in Client(Nodes) : o.kind # "len"} \cup {o \in Move(Nodes) : o.from # o.node}
            [] Inst = "three" -> {o \in Client(Nodes) : o.kind # "len" /\ o.node = 1}
                                 \cup {o \in Move(Nodes) : o.from # o.node /\ o.n # 1}
            [] Inst = "self" -> {o \in Move(Nodes) : TRUE} \cup {O("add", 1)}
MCFirst == IF Inst = "one" THEN [n \in Nodes |-> {}]
           ELSE [n \in Nodes |-> IF n = 1 THEN {1, 2} ELSE IF n = 2 THEN {3} ELSE {}]
\* Without the times of the requests (not for the invariants about histories).
NoTimes == <<data, has, slot, pc, loc, down>>
=============================================================================
