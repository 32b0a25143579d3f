------------------------------- MODULE Arbiter ------------------------------
(***************************************************************************)
(* Arbitration (C23). A member is in one of the states ready, session,     *)
(* failed, done. A session has a name, the addresses that can be voted     *)
(* for, and a vote which the member draws; the members collect each        *)
(* other's votes one after the other.                                      *)
(*                                                                         *)
(* What is drawn is not known from outside until it is asked for, and when *)
(* exactly a deadline is set is known up to the duration of the request    *)
(* only, so a member's state is described by the set of votes that are     *)
(* possible (pv), and intervals of deadlines (e0..e1 for the session,      *)
(* a0..a1 for the arbiter). A reply must be possible, and narrows what is. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Range(f) == {f[i] : i \in DOMAIN f}

InvalidMembers == 1
InvalidID      == 2
InSession      == 3
NotInSession   == 4
FailedVotes    == 5
FailedAgree    == 6
SessionExpired == 7
ArbExpired     == 8
OK             == 9
NotInit        == 10

\* Clocks are read in ms.
Fuzz == 2

Ready(s) == [st |-> "ready", id |-> "", opts |-> {}, pv |-> {""}, e0 |-> -10000, e1 |-> -10000,
             full |-> FALSE, arb |-> {""}, a0 |-> 0, a1 |-> 0,
             white |-> Range(s.white), sess |-> s.sess, arbd |-> s.arb, up |-> TRUE]

MayBeOver(e0, t1)  == t1 + Fuzz >= e0
MayBeAlive(e1, t0) == t0 - Fuzz <= e1

----------------------------------------------------------------------------
\* InitSession
InitReplies(m, o) ==
    IF ~(Range(o.opts) \subseteq m.white) THEN {InvalidMembers}
    ELSE IF m.st = "session" THEN {InSession}
    ELSE IF m.st = "failed" /\ o.id # m.id THEN {InvalidID}
    ELSE {OK}

AfterInit(m, o) ==
    [m EXCEPT !.st = "session", !.id = o.id, !.opts = Range(o.opts), !.pv = Range(o.opts),
              !.e0 = o.t0 + m.sess, !.e1 = o.t1 + m.sess]

----------------------------------------------------------------------------
\* Vote: the possible replies of a member between t0 and t1.
VoteStatuses(m, id, t0, t1) ==
    IF id # m.id THEN {InvalidID}
    ELSE (IF MayBeOver(m.e0, t1) THEN {SessionExpired} ELSE {})
         \cup (IF ~MayBeAlive(m.e1, t0) THEN {}
               ELSE CASE m.st = "ready" -> {NotInSession}
                      [] m.st \in {"session", "done"} -> {OK}
                      [] m.st = "failed" -> {IF m.full THEN FailedAgree ELSE FailedVotes})

VoteOk(m, o) ==
    /\ o.status \in VoteStatuses(m, o.id, o.t0, o.t1)
    /\ IF o.status \in {OK, FailedVotes, FailedAgree} THEN o.vote \in m.pv ELSE o.vote = ""

AfterVote(m, o) == IF o.status \in {OK, FailedVotes, FailedAgree} THEN [m EXCEPT !.pv = {o.vote}] ELSE m

----------------------------------------------------------------------------
\* CollectVotes by member n: who votes, and for whom. M: all members.
Voters(M, n, o) == {v \in (Range(o.opts) \cap DOMAIN M) \ {n} : M[v].up}
Sure(M, n, o) == {v \in Voters(M, n, o) : VoteStatuses(M[v], o.id, o.t0, o.t1) = {OK}}
Maybe(M, n, o) == {v \in Voters(M, n, o) : OK \in VoteStatuses(M[v], o.id, o.t0, o.t1)}

Count(f, a) == Cardinality({v \in DOMAIN f : f[v] = a})
Tops(f) == {f[v] : v \in {w \in DOMAIN f : \A u \in DOMAIN f : Count(f, f[u]) <= Count(f, f[w])}}

\* The votes that might have been collected.
Tables(M, n, o) ==
    UNION {{f \in [V \cup {n} -> UNION {M[v].pv : v \in V \cup {n}}] : \A v \in DOMAIN f : f[v] \in M[v].pv} :
           V \in {W \cup Sure(M, n, o) : W \in SUBSET Maybe(M, n, o)}}

Outcome(m, f) == IF ~(m.opts \subseteq DOMAIN f) THEN FailedVotes
                 ELSE IF Cardinality(Tops(f)) # 1 THEN FailedAgree ELSE OK

CollectReplies(M, n, o) ==
    LET m == M[n] IN
    IF ~(Range(o.opts) \subseteq m.white) THEN {InvalidMembers}
    ELSE IF m.st # "session" THEN {NotInSession}
    ELSE IF o.id # m.id THEN {InvalidID}
    ELSE {Outcome(m, f) : f \in Tables(M, n, o)}

AfterCollect(M, n, o) ==
    LET m == M[n] IN
    IF m.st # "session" \/ o.status \notin {FailedVotes, FailedAgree, OK} THEN m
    ELSE IF o.status # OK THEN [m EXCEPT !.st = "failed", !.full = (o.status = FailedAgree)]
    ELSE [m EXCEPT !.st = "done",
                   !.arb = {CHOOSE a \in Tops(f) : TRUE : f \in {g \in Tables(M, n, o) : Outcome(m, g) = OK}},
                   !.a0 = o.t0 + m.arbd, !.a1 = o.t1 + m.arbd]

----------------------------------------------------------------------------
\* Arbiter
ArbiterOk(m, o) ==
    /\ o.status \in
         CASE m.st = "ready" -> {NotInit}
           [] m.st = "session" -> {InSession}
           [] m.st = "failed" -> {IF m.full THEN FailedAgree ELSE FailedVotes}
           [] m.st = "done" -> (IF MayBeOver(m.a0, o.t1) THEN {ArbExpired} ELSE {})
                               \cup (IF MayBeAlive(m.a1, o.t0) THEN {OK} ELSE {})
    /\ IF o.status = OK THEN /\ o.addr \in m.arb
                             /\ m.a0 - Fuzz <= o.exp /\ o.exp <= m.a1 + Fuzz
       ELSE o.addr = ""

AfterArbiter(m, o) == IF o.status = OK THEN [m EXCEPT !.arb = {o.addr}] ELSE m

----------------------------------------------------------------------------
(* Helpers and elections.                                                  *)
ErrsOk(o) ==
    LET E == {x \in Range(o.items) : x.e # "<nil>"} IN
    IF E = {} THEN o.re = "<nil>" /\ o.ra = "" ELSE \E x \in E : x.a = o.ra /\ x.e = o.re

StatsOk(o) == o.res = (\A x \in Range(o.items) : x.s = o.sc)

\* An election among the nodes o.opts. It must fail if one of them cannot be
\* reached, or refuses the others. If it succeeds they agree.
ElectOk(M, o) ==
    LET N == Range(o.opts)
        bad == \/ ~(N \subseteq DOMAIN M)
               \/ \E n \in N : ~M[n].up \/ ~(N \subseteq M[n].white)
        A == {x \in Range(o.arbs) : x.m \in N}
    IN  /\ bad => ~o.ok
        /\ o.e = (\E n \in N : n \notin DOMAIN M \/ ~M[n].up)
        /\ o.e => o.ea \in N /\ (o.ea \notin DOMAIN M \/ ~M[o.ea].up)
        /\ o.ok => \E a \in N : \A x \in A : x.status = OK /\ x.addr = a
        /\ o.ok => Cardinality(A) = Cardinality(N) /\ o.us
        \* A single member agrees with itself.
        /\ N = {CHOOSE n \in N : TRUE} /\ ~bad /\ M[CHOOSE n \in N : TRUE].st \in {"ready", "done"} => o.ok

\* What is known about the members afterwards (status of Arbiter).
AfterElect(M, o) ==
    [n \in DOMAIN M |->
        LET x == CHOOSE y \in Range(o.arbs) : y.m = n
        IN IF n \notin Range(o.opts) \/ ~M[n].up THEN M[n]
           ELSE [M[n] EXCEPT !.st = CASE x.status = NotInit -> "ready" [] x.status = InSession -> "session"
                                      [] x.status \in {FailedVotes, FailedAgree} -> "failed" [] OTHER -> "done"]]
=============================================================================
