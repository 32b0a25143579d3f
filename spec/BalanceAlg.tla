----------------------------- MODULE BalanceAlg -----------------------------
(***************************************************************************)
(* Load balancing in a network of nodes, as it is implemented, for one     *)
(* namespace that all nodes hold. Each node does its rounds on its own: it *)
(* asks for the amounts first, and then takes points from one donor after  *)
(* the other according to what it knows; other nodes do the same in the    *)
(* meantime. A donor gives whole groups, so it might give up to OVER more  *)
(* than what it was asked for.                                             *)
(*                                                                         *)
(* Checked with TLC:                                                       *)
(*   Conserved  no points are lost or made;                                *)
(*   Legal      what a node asks for is what it may ask for (Balance.tla), *)
(*              as far as it knows;                                        *)
(*   Must       a round without a request was one that needed none;        *)
(*   Rest       with rounds that do not overlap (ONE) the network comes to *)
(*              rest: nodes do not move the same points back and forth.    *)
(* MARGIN (percent of the mean) is what prevents the latter going wrong,   *)
(* DIV the fraction of the difference that is asked for, CAREFUL whether   *)
(* the amount of the donor is looked at.                                    *)
(***************************************************************************)
EXTENDS Balance, TLC
CONSTANTS N, TOTAL, OVER, MARGIN, DIV, ONE, CAREFUL

Nodes == 1..N
VARIABLES amt,     \* amounts
          know,    \* of each node: what it knows in its round
          todo,    \* of each node: donors that are left in its round
          ok, asked, must
vars == <<amt, know, todo, ok, asked, must>>

Init == /\ amt \in [Nodes -> 0..TOTAL] /\ Sum(amt, Nodes) = TOTAL
        /\ know = [n \in Nodes |-> amt]
        /\ todo = [n \in Nodes |-> {}]
        /\ ok = TRUE
        /\ asked = [n \in Nodes |-> TRUE]
        /\ must = [n \in Nodes |-> FALSE]

Begin(n) ==
    /\ todo[n] = {}
    /\ ONE => \A m \in Nodes : todo[m] = {}
    /\ asked[n] \/ ~must[n]  \* (Must is violated otherwise)
    /\ know' = [know EXCEPT ![n] = amt]
    /\ todo' = [todo EXCEPT ![n] = Nodes \ {n}]
    /\ asked' = [asked EXCEPT ![n] = FALSE]
    /\ must' = [must EXCEPT ![n] = MustTake(amt, Sum(amt, Nodes), n, N)]
    /\ UNCHANGED <<amt, ok>>

Donor(n, d) ==
    LET a == know[n]
        total == Sum(know[n], Nodes)
        mean == TOTAL \div N   \* (what it knows is consistent, see Begin)
        margin == (mean * MARGIN) \div 100
        k == ((mean - a[n]) \div N) \div DIV
        skip == a[n] > mean - margin \/ k <= 0 \/ (CAREFUL /\ a[d] - k < mean + margin)
    IN  /\ d \in todo[n]
        /\ todo' = [todo EXCEPT ![n] = @ \ {d}]
        /\ UNCHANGED must
        /\ IF skip THEN UNCHANGED <<amt, know, ok, asked>>
           ELSE \E got \in 0..(k + OVER) :
                 /\ got <= amt[d]
                 /\ got >= k \/ got = amt[d]
                 /\ amt' = [amt EXCEPT ![n] = @ + got, ![d] = @ - got]
                 /\ know' = [know EXCEPT ![n] = Taken(a, n, d, got)]
                 /\ ok' = (ok /\ MayTake(a, TOTAL, n, d, k))
                 /\ asked' = [asked EXCEPT ![n] = TRUE]

Next == \E n \in Nodes : Begin(n) \/ \E d \in Nodes : Donor(n, d)
Spec == Init /\ [][Next]_vars
             /\ \A n \in Nodes : WF_vars(\E d \in Nodes : Donor(n, d)) /\ SF_vars(Begin(n))

Conserved == Sum(amt, Nodes) = TOTAL /\ \A n \in Nodes : amt[n] >= 0
Legal == ok
Must == \A n \in Nodes : todo[n] = {} /\ must[n] => asked[n]
Rest == <>[][amt' = amt]_vars
=============================================================================
