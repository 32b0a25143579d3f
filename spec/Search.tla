------------------------------- MODULE Search -------------------------------
(***************************************************************************)
(* What the k-nearest and k-furthest searches compute (C07), over vectors  *)
(* with integer coordinates. Scores are never calculated, they are         *)
(* compared: the squared Euclidean distance is an integer, and cosine      *)
(* similarities d/(|q||v|) are compared by the signed squares of d/|v|.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE DotUpTo(_, _, _)
DotUpTo(a, b, i) == IF i = 0 THEN 0 ELSE a[i] * b[i] + DotUpTo(a, b, i - 1)
Dot(a, b) == DotUpTo(a, b, Len(a))
SqDist(a, b) == LET d == [i \in DOMAIN a |-> a[i] - b[i]] IN Dot(d, d)
SignedSq(x) == IF x < 0 THEN -(x * x) ELSE x * x

(* A vector as a fraction n/d, d > 0, that grows with its score.            *)
Frac(fn, q, v) ==
    IF fn \in {"knneuc", "kfneuc"} THEN [n |-> SqDist(q, v), d |-> 1]
    ELSE LET nn == Dot(v, v) IN
         IF nn = 0 \/ Dot(q, q) = 0 THEN [n |-> 0, d |-> 1]
         ELSE [n |-> SignedSq(Dot(q, v)), d |-> nn]
Less(x, y) == x.n * y.d < y.n * x.d
Asc(fn) == fn \in {"knneuc", "kfncos"}   \* small scores are the better ones.

(* out is an answer for the candidates I (indexes from 1) of a pool, of     *)
(* which Better is a strict weak order. Indexes in out count from 0.        *)
Answer(out, I, k, Better(_, _)) ==
    LET o == [i \in DOMAIN out |-> out[i] + 1]
        K == IF k < 0 THEN 0 ELSE k
        chosen == {o[i] : i \in DOMAIN o}
    IN  /\ chosen \subseteq I
        /\ Cardinality(chosen) = Len(out)
        /\ Len(out) = (IF K < Cardinality(I) THEN K ELSE Cardinality(I))
        /\ \A i \in 1..(Len(o) - 1) : ~Better(o[i + 1], o[i])
        /\ o # <<>> => \A j \in I \ chosen : ~Better(j, o[Len(o)])

KnnOk(s) ==
    LET I == {i \in DOMAIN s.pool : Len(s.pool[i]) = Len(s.q)}
        f == [i \in I |-> Frac(s.fn, s.q, s.pool[i])]
        Better(i, j) == IF Asc(s.fn) THEN Less(f[i], f[j]) ELSE Less(f[j], f[i])
    IN  ~s.mut /\ Answer(s.out, I, s.k, Better)

BruteOk(s) ==
    LET I == {i \in DOMAIN s.scores : s.scores[i] >= 0}
        Better(i, j) == IF s.asc THEN s.scores[i] < s.scores[j] ELSE s.scores[j] < s.scores[i]
    IN  Answer(s.out, I, s.k, Better)

(* Vectors with infinities, NaN or values whose squares overflow: any order *)
(* will do, but all comparable ones can be found.                           *)
OddOk(s) ==
    LET I == {i \in DOMAIN s.pool : s.pool[i] = s.q}
        Better(i, j) == FALSE
    IN  Answer(s.out, I, s.k, Better)

Abs(x) == IF x < 0 THEN -x ELSE x
Within(r, sc, num, den) ==   \* |r/sc - sqrt(num/den)| < 1/sc
    /\ (r + 1) * (r + 1) * den >= sc * sc * num
    /\ r >= 1 => (r - 1) * (r - 1) * den <= sc * sc * num
    /\ r >= 0
ScoreOk(s) ==
    IF Len(s.a) # Len(s.b) THEN s.err = "err"
    ELSE /\ s.err = "none"
         /\ IF s.fn = "euc" THEN Within(s.r, s.sc, SqDist(s.a, s.b), 1)
            ELSE LET d == Dot(s.a, s.b)  nn == Dot(s.a, s.a) * Dot(s.b, s.b) IN
                 IF nn = 0 \/ d = 0 THEN s.r = 0
                 ELSE Within(IF d < 0 THEN -s.r ELSE s.r, s.sc, d * d, nn)

StepOk(s) == CASE s.op = "knn" -> s.err = "none" /\ KnnOk(s)
               [] s.op = "brute" -> s.err = "none" /\ BruteOk(s)
               [] s.op = "odd" -> s.err = "none" /\ OddOk(s)
               [] s.op = "score" -> ScoreOk(s)
               [] OTHER -> FALSE
=============================================================================
