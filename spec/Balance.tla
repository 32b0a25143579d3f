------------------------------ MODULE Balance ------------------------------
(***************************************************************************)
(* A round of load balancing at a node (C17): which transfers of points of *)
(* a namespace it may ask for, given the amounts at the nodes that hold    *)
(* the namespace, and when it has to ask for one.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Sum(_, _)
Sum(a, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN a[x] + Sum(a, S \ {x})

Get(a, n) == IF n \in DOMAIN a THEN a[n] ELSE 0

\* The node me may ask donor for k points. a: amounts at the holders, total:
\* of the amounts when the round began.
MayTake(a, total, me, donor, k) ==
    LET h == Cardinality(DOMAIN a) IN
    /\ donor # me
    /\ donor \in DOMAIN a
    /\ k > 0
    /\ Get(a, me) * h < total
    /\ h = 1 \/ (a[donor] - k) * h >= total - (h - 1)   \* The mean is rounded down.

\* The amounts after me got k points from the donor.
Taken(a, me, donor, k) ==
    [n \in DOMAIN a \cup {me} |-> IF n = me THEN Get(a, me) + k ELSE IF n = donor THEN a[n] - k ELSE a[n]]

\* The node me has to ask for something: it is far below the mean, and
\* another one far above. nodes: amount of nodes in the network.
MustTake(a, total, me, nodes) ==
    LET h == Cardinality(DOMAIN a)
        mean == total \div h
    IN  /\ h > 0
        /\ Get(a, me) * 2 <= mean
        /\ mean - Get(a, me) >= 3 * nodes + 3
        /\ \E n \in DOMAIN a \ {me} : a[n] >= 2 * mean

----------------------------------------------------------------------------
(* Recorded rounds: s.amounts is a list of holders of each namespace,      *)
(* s.calls the requests of the node in the order in which they were sent.  *)

Amounts(h) == [n \in {x.node : x \in {h.at[i] : i \in DOMAIN h.at}} |->
                 (CHOOSE x \in {h.at[i] : i \in DOMAIN h.at} : x.node = n).n]

RECURSIVE StepsOk(_, _, _, _)
StepsOk(a, total, me, calls) ==
    IF calls = <<>> THEN TRUE
    ELSE LET c == Head(calls) IN
         /\ MayTake(a, total, me, c.from, c.a)
         /\ StepsOk(Taken(a, me, c.from, c.rn), total, me, Tail(calls))

OfNs(s, ns) == SelectSeq(s.calls, LAMBDA c : c.ns = ns)

BalanceBad(s) ==
    LET H == {s.amounts[i] : i \in DOMAIN s.amounts}
        others == {c \in {s.calls[i] : i \in DOMAIN s.calls} :
                     c.task # "steal" \/ c.node # s.local \/ ~\E h \in H : h.ns = c.ns}
        bad == {h \in H : LET a == Amounts(h) IN ~StepsOk(a, Sum(a, DOMAIN a), s.local, OfNs(s, h.ns))}
        idle == {h \in H : LET a == Amounts(h) IN
                             MustTake(a, Sum(a, DOMAIN a), s.local, s.nodes) /\ OfNs(s, h.ns) = <<>>}
    IN  (IF others = {} THEN {} ELSE {"other"}) \cup (IF bad = {} THEN {} ELSE {"take"})
        \cup (IF idle = {} THEN {} ELSE {"idle"})
=============================================================================
