------------------------------ MODULE Progress ------------------------------
(***************************************************************************)
(* Which requests complete while others are suspended (C13).               *)
(*                                                                         *)
(* A request that is busy in a store (the content of one namespace of one  *)
(* node) may keep that store to itself, and nothing else. A request that   *)
(* waits for another node keeps nothing. So a request completes if none of *)
(* the stores that it uses is busy, and all requests complete in the end.  *)
(* The design specification Cluster.tla shows that the protocol of the nodes *)
(* achieves that.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Elems(s) == {s[i] : i \in DOMAIN s}

\* The stores that are busy.
Busy(held) == {<<h.node, h.ns>> : h \in {x \in held : x.where = "store" /\ x.state = "parked"}}

\* The request q uses none of the busy stores B.
Free(q, B) ==
    CASE q.op = "nss"  -> TRUE
      [] q.op = "meta" -> \A b \in B : b[1] # q.node
      [] OTHER         -> \A n \in {q.node} \cup Elems(q.peers) : <<n, q.ns>> \notin B

RoundOk(r) ==
    LET H == Elems(r.held)
        B == Busy(H)
    IN  /\ \A q \in H \cup Elems(r.probes) : q.after
        /\ \A q \in Elems(r.probes) : Free(q, B) => q.before
        \* What was meant to be suspended got there, or completed.
        /\ \A h \in H : h.state = "stuck" => h.where = "net" /\ ~Free(h, B)
=============================================================================
