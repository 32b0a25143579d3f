------------------------------- MODULE MCLife -------------------------------
(* All behaviours of a few nodes, which implement Life.tla by a listener per *)
(* start that is bound to the table of its node. Bug: a wrong implementation *)
EXTENDS Life, TLC
CONSTANTS Srvs, AddrOf, Ids, MaxStarts, Bug
VARIABLES S, open, tab, nxt, step
\* open: handles of listeners that are open, with their address and node;
\* tab: the tables.  S: the specification's state; step: the last step.
vars == <<S, open, tab, nxt, step>>
Noop == [op |-> "stop", h |-> 1]
Init == S = Empty /\ open = {} /\ tab = [n \in Srvs |-> {}] /\ nxt = 1 /\ step = Noop
Owner(a) == {o \in open : o.addr = a}
First == CHOOSE n \in Srvs : TRUE
Node(o) == IF Bug = "shared" THEN First ELSE o.srv

Do(s) == step' = s /\ S' = (IF Ok(S, s) THEN After(S, s) ELSE S)

Start(n) ==
    /\ nxt <= MaxStarts
    /\ LET ok == Owner(AddrOf[n]) = {} IN
       /\ open' = IF ok THEN open \cup {[k |-> nxt, addr |-> AddrOf[n], srv |-> n]} ELSE open
       /\ nxt' = IF ok THEN nxt + 1 ELSE nxt
       /\ tab' = IF ok /\ Bug = "fresh" THEN [tab EXCEPT ![n] = {}] ELSE tab
       /\ Do([op |-> "start", srv |-> n, addr |-> AddrOf[n], ok |-> ok])
Stop(k) ==
    /\ k < nxt
    /\ open' = IF Bug = "stale" THEN {o \in open : o.addr # S.h[k].addr} ELSE {o \in open : o.k # k}
    /\ Do([op |-> "stop", h |-> k])
    /\ UNCHANGED <<tab, nxt>>
PutAt(a, i) ==
    /\ LET O == Owner(a) IN
       IF O = {} THEN tab' = tab /\ Do([op |-> "put", addr |-> a, ns |-> "a", id |-> i, ok |-> FALSE, err |-> "net"])
       ELSE LET n == Node(CHOOSE o \in O : TRUE) IN
            /\ tab' = [tab EXCEPT ![n] = @ \cup {i}]
            /\ Do([op |-> "put", addr |-> a, ns |-> "a", id |-> i, ok |-> TRUE, err |-> "none"])
    /\ UNCHANGED <<open, nxt>>
RECURSIVE SetToSeq(_)
SetToSeq(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE x \in X : TRUE IN <<x>> \o SetToSeq(X \ {x})
GetAt(a) ==
    /\ LET O == Owner(a) IN
       IF O = {} THEN Do([op |-> "nss", addr |-> a, names |-> <<>>, err |-> "net"])
       ELSE LET D == tab[Node(CHOOSE o \in O : TRUE)] IN
            Do([op |-> "get", addr |-> a, ns |-> "a", out |-> SetToSeq(D), err |-> IF D = {} THEN "ns" ELSE "none"])
    /\ UNCHANGED <<open, tab, nxt>>
Reset(n) == tab' = [tab EXCEPT ![n] = {}] /\ Do([op |-> "reset", srv |-> n]) /\ UNCHANGED <<open, nxt>>
Look(n) == /\ Do([op |-> "tacc", srv |-> n, ns |-> "a", ok |-> tab[n] # {}, n |-> Cardinality(tab[n])])
           /\ UNCHANGED <<open, tab, nxt>>
Next == \/ \E n \in Srvs : Start(n) \/ Reset(n) \/ Look(n)
        \/ \E k \in 1..MaxStarts : Stop(k)
        \/ \E a \in {AddrOf[n] : n \in Srvs} : GetAt(a) \/ \E i \in Ids : PutAt(a, i)
\* The implementation's replies are those of the specification, in every state.
Spec == Init /\ [][Next]_vars
Right == [][Ok(S, step')]_vars
Agrees == \A n \in Srvs : tab[n] = Pts(S, n, "a")
\* What is stored does not depend on who is being served.
Kept == [][step'.op \in {"start", "stop"} => S'.d = S.d]_vars
\* A request changes at most the node at its address.
Apart == [][\A n \in Srvs : (step'.op = "put" /\ AddrOf[n] # step'.addr) => Pts(S', n, "a") = Pts(S, n, "a")]_vars
Addrs3 == [n1 |-> "a", n2 |-> "a", n3 |-> "b"]
View == <<S, open, tab, nxt>>
=============================================================================
