--------------------------------- MODULE Bag --------------------------------
(***************************************************************************)
(* Points with the same content. Contract.tla tells points apart, so each  *)
(* of them is stored at most once. Clients can store equal points, though, *)
(* which are as many points: here states are bags of contents, and all     *)
(* vectors can be equally near to each other. One operator per property,   *)
(* for those that can be told by counting. Nothing expires here.           *)
(***************************************************************************)
EXTENDS Contract

Occ(d, x) == Cardinality({i \in DOMAIN d : d[i] = x})
Cnt(S, st, x) == IF st \in DOMAIN S THEN SumSeq([i \in DOMAIN S[st].g |-> Occ(S[st].g[i].d, x)]) ELSE 0
Tot(S, x) == SumSet([st \in DOMAIN S |-> Cnt(S, st, x)], DOMAIN S)
Kinds(c) == DOMAIN c.dps
SameTot(c, P, Q) == \A x \in Kinds(c) : Tot(P, x) = Tot(Q, x)
SameIn(c, P, Q, X) == \A st \in X : \A x \in Kinds(c) : Cnt(P, st, x) = Cnt(Q, st, x)
Stores(P, Q) == DOMAIN P \cup DOMAIN Q
\* How many groups there are of each size.
Sizes(S, st) == LET z == [i \in DOMAIN S[st].g |-> Len(S[st].g[i].d)] IN
                [k \in Range(z) |-> Cardinality({i \in DOMAIN z : z[i] = k})]
Of(z, k) == IF k \in DOMAIN z THEN z[k] ELSE 0
Most == 0..400

B01(c, s, P, Q) ==
    s.op \in InsertOps =>
    IF s.ok
    THEN \E st \in DOMAIN Q :
            /\ Q[st].ns = s.ns /\ Q[st].node \in Addressed(c, P, s)
            /\ SameIn(c, P, Q, Stores(P, Q) \ {st})
            /\ \A x \in Kinds(c) : Cnt(Q, st, x) = Cnt(P, st, x) + (IF x = s.id THEN 1 ELSE 0)
            /\ DOMAIN Q \ DOMAIN P \subseteq {st}
    ELSE /\ DOMAIN P = DOMAIN Q /\ SameIn(c, P, Q, DOMAIN Q)
         /\ ~\E n \in Addressed(c, P, s) : NodeTakes(c, P, s, n, s.id)

B02(c, s, P, Q) ==
    s.op \in MaintOps \cup ReadOps =>
    IF s.op = "give" THEN SameTot(c, P, Q) ELSE SameIn(c, P, Q, Stores(P, Q))

B03(c, s, P, Q) ==
    s.op \in MoveOps =>
    /\ SameTot(c, P, Q)
    /\ SameIn(c, P, Q, {st \in Stores(P, Q) :
          LET r == IF st \in DOMAIN P THEN P[st] ELSE Q[st] IN
          r.ns # s.ns \/ r.node \notin {s.node, s.from} \cup Cands(s)})

B04(c, s, P, Q) ==
    s.op \in LookupOps \cup DrainOps \cup {"nearc"} =>
    /\ IF s.op = "nearc" THEN Len(s.groups) <= Max(s.n, 0) ELSE Len(s.out) <= Max(s.n, 0)
    /\ \A x \in Kinds(c) :
          /\ Occ(s.out, x) <= SumSet([st \in DOMAIN P |-> Cnt(P, st, x)], Source(P, s) \cap DOMAIN P)
          /\ Tot(Q, x) = Tot(P, x) - (IF Removes(s) THEN Occ(s.out, x) ELSE 0)
    /\ \A st \in Stores(P, Q) : \A x \in Kinds(c) : Cnt(Q, st, x) <= Cnt(P, st, x)

B06(c, s, P, Q) ==
    (s.op \in LookupOps /\ s.n > 0) =>
    Len(s.out) >= Min(s.n, SumSet([st \in DOMAIN P |-> StLen(P, st)], LookupStores(P, s)))

B14split(s, P, Q) ==
    (s.op = "split" /\ Runs(P, s)) =>
    LET p == Sizes(P, s.st)
        q == Sizes(Q, s.st)
        halved(k) == InRange(s, k) /\ k >= 2
        parts(k) == {j \in DOMAIN p : halved(j) /\ (j \div 2 = k \/ j - j \div 2 = k)}
        add(k) == SumSet([j \in DOMAIN p |-> p[j] * (IF j \div 2 = k /\ j - j \div 2 = k THEN 2 ELSE 1)], parts(k))
    IN  \A k \in Most : Of(q, k) = add(k) + (IF halved(k) THEN 0 ELSE Of(p, k))
B14merge(s, P, Q) ==
    (s.op = "merge" /\ Runs(P, s)) =>
    /\ Len(Q[s.st].g) <= Len(P[s.st].g)
    /\ \A i \in DOMAIN Q[s.st].g : ~InRange(s, Len(Q[s.st].g[i].d)) \/ Len(Q[s.st].g) = 1
    /\ (~\E i \in DOMAIN P[s.st].g : InRange(s, Len(P[s.st].g[i].d))) => Sizes(Q, s.st) = Sizes(P, s.st)
B14auto(s, P, Q) ==
    (s.op \in InsertOps /\ s.ok) =>
    LET st == CHOOSE st \in DOMAIN Q : StLen(Q, st) > StLen(P, st)
        p == IF st \in DOMAIN P THEN Sizes(P, st) ELSE <<>>
        q == Sizes(Q, st)
        \* The group of k points got one more.
        grown(k) == \A j \in Most : Of(q, j) = Of(p, j) - (IF j = k THEN 1 ELSE 0) + (IF j = k + 1 THEN 1 ELSE 0)
        h == s.thr \div 2
        halves(k) == \A j \in Most : Of(q, j) = Of(p, j) - (IF j = k THEN 1 ELSE 0)
                         + (IF j = h THEN 1 ELSE 0) + (IF j = k + 1 - h THEN 1 ELSE 0)
    IN  Q[st].kind = "cm" =>
        IF st \notin DOMAIN P \/ Len(P[st].g) = 0 THEN Len(Q[st].g) = 1
        ELSE \E k \in DOMAIN p : IF s.thr >= 2 /\ k + 1 >= s.thr THEN halves(k) ELSE grown(k)
B14(c, s, P, Q) == B14split(s, P, Q) /\ B14merge(s, P, Q) /\ B14auto(s, P, Q)

B15(c, s, P, Q) ==
    (s.op \in DrainOps /\ Runs(P, s)) =>
    LET p == P[s.st].g
        q == Q[s.st].g
        took(i) == Len(p[i].d) - Len(q[i].d)
    IN  /\ Len(s.out) = Min(Max(s.n, 0), StLen(P, s.st))
        /\ StLen(Q, s.st) = StLen(P, s.st) - Len(s.out)
        /\ DOMAIN p = DOMAIN q =>
              \A i, j \in DOMAIN p : took(i) >= 0 /\ (took(i) >= took(j) + 2 => q[j].d = <<>>)

B16(c, s, P, Q) ==
    (s.op = "steal" /\ ~Unreached(s) /\ s.from # s.node) =>
    LET don == Key(s.from, s.ns)
        reach == s.from \notin Down(s) /\ don \in DOMAIN P
        gave(k) == Of(Sizes(P, don), k) - Of(Sizes(Q, don), k)
        tot == StLen(P, don) - StLen(Q, don)
        mine == IF s.st \in DOMAIN P THEN Sizes(P, s.st) ELSE <<>>
    IN  (reach /\ ~s.cut) =>
        /\ s.n > 0 => s.ok
        /\ s.rn = tot
        /\ s.rn = StLen(Q, s.st) - StLen(P, s.st)
        \* Whole groups, until the limit is reached or the donor has nothing.
        /\ \A k \in Most \ {0} : gave(k) >= 0 /\ Of(Sizes(Q, s.st), k) = Of(mine, k) + gave(k)
        /\ s.n > 0 => tot >= s.n \/ StLen(Q, don) = 0
        /\ tot > 0 => \E k \in Most \ {0} : gave(k) > 0 /\ tot - k < s.n

B25(c, s, P, Q) ==
    (s.op = "dist" /\ Runs(P, s)) =>
    LET moved == StLen(P, s.st) - StLen(Q, s.st)
        R == Holders(P, s) \ Range(s.noadd)
        rank == {n \in R : \A x \in Kinds(c) : n \in Ranked(P, s, s.mode, Dp(c, x)) /\ NodeTakes(c, P, s, n, x)}
    IN  /\ (s.n <= 0 \/ Len(s.cands) = 0 \/ R = {}) => SameIn(c, P, Q, Stores(P, Q))
        /\ moved <= Max(s.n, 0)
        /\ s.node \notin Cands(s) /\ rank # {} => moved = Min(Max(s.n, 0), StLen(P, s.st))

BagProps == {"C01", "C02", "C03", "C04", "C06", "C11", "C14", "C15", "C16", "C20", "C22", "C25"}
BagHolds(p, c, s, P, Q) ==
    IF Crash(s) THEN FALSE
    ELSE IF s.op = "init" THEN TRUE
    ELSE CASE p = "C01" -> B01(c, s, P, Q)
           [] p = "C02" -> B02(c, s, P, Q)
           [] p = "C03" -> B03(c, s, P, Q)
           [] p = "C04" -> B04(c, s, P, Q)
           [] p = "C06" -> B06(c, s, P, Q)
           [] p = "C11" -> C11(c, s, P, Q)
           [] p = "C14" -> B14(c, s, P, Q)
           [] p = "C15" -> B15(c, s, P, Q)
           [] p = "C16" -> B16(c, s, P, Q)
           [] p = "C20" -> C20(c, s, P, Q)
           [] p = "C22" -> C22(c, s, P, Q)
           [] p = "C25" -> B25(c, s, P, Q)
           [] OTHER -> TRUE
BagFails(props, c, s, P, Q) == {p \in props : ~BagHolds(p, c, s, P, Q)}
=============================================================================
