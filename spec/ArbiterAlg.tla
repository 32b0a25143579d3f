----------------------------- MODULE ArbiterAlg -----------------------------
(***************************************************************************)
(* Elections as they are implemented: clients each start a session at all  *)
(* members they can reach, and then let one member after the other collect *)
(* the votes of the others. Two clients may do this at the same time, and  *)
(* sessions expire at any time. Checked with TLC: if an election succeeds, *)
(* then all of its members name the same arbiter, which is one of the      *)
(* addresses that were voted on (Agreed), and is whitelisted by all of     *)
(* them (Whitelisted).                                                     *)
(*                                                                         *)
(* BUG: "none"; "id" (a member votes in sessions that are not its own);    *)
(* "white" (whitelists are not looked at); "part" (votes that are missing  *)
(* do not matter).                                                         *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS MEMBERS, CLIENTS, WHITES, BUG

VARIABLES m,    \* members
          c     \* clients
vars == <<m, c>>

Empty == [st |-> "ready", id |-> 0, opts |-> {}, vote |-> 0, arb |-> 0, alive |-> FALSE]

Init == /\ m \in [MEMBERS -> {[Empty EXCEPT !.vote = 0] @@ [white |-> w] : w \in WHITES}]
        /\ c = [k \in CLIENTS |-> [pc |-> "start", opts |-> {}, left |-> {}, ok |-> TRUE]]

\* It pings first. Members might be unreachable.
Start(k) ==
    /\ c[k].pc = "start"
    /\ \E O \in SUBSET MEMBERS \ {{}} : c' = [c EXCEPT ![k] = [pc |-> "init", opts |-> O, left |-> O, ok |-> TRUE]]
    /\ UNCHANGED m

InitOne(k, n) ==
    /\ c[k].pc = "init" /\ n \in c[k].left
    /\ LET fine == /\ c[k].opts \subseteq m[n].white \/ BUG = "white"
                   /\ m[n].st # "session"
                   /\ m[n].st = "failed" => m[n].id = k
       IN  IF fine
           THEN /\ \E v \in c[k].opts :
                     m' = [m EXCEPT ![n].st = "session", ![n].id = k, ![n].opts = c[k].opts, ![n].vote = v,
                                    ![n].alive = TRUE]
                /\ c' = [c EXCEPT ![k].left = @ \ {n}]
           ELSE m' = m /\ c' = [c EXCEPT ![k].left = @ \ {n}, ![k].ok = FALSE]

InitEnd(k) ==
    /\ c[k].pc = "init" /\ c[k].left = {}
    /\ c' = [c EXCEPT ![k].pc = IF c[k].ok THEN "collect" ELSE "end", ![k].left = c[k].opts]
    /\ UNCHANGED m

Votes(k, n) == {x \in c[k].opts \ {n} : /\ m[x].id = k \/ BUG = "id"
                                        /\ m[x].alive
                                        /\ m[x].st \in {"session", "done"}} \cup {n}
Count(V, a) == Cardinality({x \in V : m[x].vote = a})
Tops(V) == {a \in {m[x].vote : x \in V} : \A b \in {m[x].vote : x \in V} : Count(V, b) <= Count(V, a)}

Collect(k, n) ==
    /\ c[k].pc = "collect" /\ n \in c[k].left
    /\ IF m[n].st # "session" \/ m[n].id # k
       THEN m' = m /\ c' = [c EXCEPT ![k].left = @ \ {n}, ![k].ok = FALSE]
       ELSE LET V == Votes(k, n)
                good == (m[n].opts \subseteq V \/ BUG = "part") /\ Cardinality(Tops(V)) = 1
            IN  IF good
                THEN /\ m' = [m EXCEPT ![n].st = "done", ![n].arb = CHOOSE a \in Tops(V) : TRUE]
                     /\ c' = [c EXCEPT ![k].left = @ \ {n}]
                ELSE /\ m' = [m EXCEPT ![n].st = "failed"]
                     /\ c' = [c EXCEPT ![k].left = @ \ {n}, ![k].ok = FALSE]

CollectEnd(k) ==
    /\ c[k].pc = "collect" /\ c[k].left = {}
    /\ c' = [c EXCEPT ![k].pc = "end"]
    /\ UNCHANGED m

Expire(n) == m[n].alive /\ m' = [m EXCEPT ![n].alive = FALSE] /\ UNCHANGED c

Next == \/ \E k \in CLIENTS : Start(k) \/ InitEnd(k) \/ CollectEnd(k)
                              \/ \E n \in MEMBERS : InitOne(k, n) \/ Collect(k, n)
        \/ \E n \in MEMBERS : Expire(n)
Spec == Init /\ [][Next]_vars

\* The member might have moved on to another session since.
Won(k) == c[k].pc = "end" /\ c[k].ok
Still(k) == {n \in c[k].opts : m[n].id = k /\ m[n].st = "done"}
Agreed == \A k \in CLIENTS : Won(k) => Cardinality({m[n].arb : n \in Still(k)}) <= 1
                                       /\ {m[n].arb : n \in Still(k)} \subseteq c[k].opts
Whitelisted == \A k \in CLIENTS : Won(k) => \A n \in Still(k) : m[n].arb \in m[n].white
=============================================================================
