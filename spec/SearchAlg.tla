------------------------------ MODULE SearchAlg -----------------------------
(***************************************************************************)
(* Design of KNNBrute: a bounded list of slots, best first, into which each *)
(* vector of the pool is bubbled. Checked for every pool of up to N scores: *)
(* the result satisfies Search!Answer, and in between the slots hold the    *)
(* best of what was seen (so that the generator may stop at any time).      *)
(*                                                                          *)
(* Scores: -1 cannot be compared, -2 compares false with everything (NaN),  *)
(* Max is the worst possible score of an ascending search, 0 that of a      *)
(* descending one. Bugs: variants that were (or could be) in the code.      *)
(***************************************************************************)
EXTENDS Search
CONSTANTS N, Max, Bug
Empty == [set |-> FALSE, i |-> 0, v |-> 0]
VARIABLES pool, k, asc, pos, slots, taken
vars == <<pool, k, asc, pos, slots, taken>>

Scores == {-2, -1} \cup 0..Max
Pools == UNION {[1..n -> Scores] : n \in 0..N}
Init == /\ pool \in Pools
        /\ k \in -1..(N + 1)
        /\ asc \in BOOLEAN
        /\ pos = 0 /\ taken = 0
        /\ slots = IF Bug = "preset" /\ k > 0 THEN [i \in 1..k |-> Empty] ELSE <<>>

Worst == IF asc THEN Max + 1 ELSE -1   \* +Inf and -Inf
NaN == -2
Lt(x, y) == x # NaN /\ y # NaN /\ x < y

\* bubble: the insertee swaps with every slot it beats.
RECURSIVE Bubble(_, _, _)
Bubble(e, s, i) ==
    IF i > Len(s) THEN s
    ELSE LET b == IF asc THEN Lt(e.v, s[i].v) ELSE Lt(s[i].v, e.v) IN
         IF b \/ ~s[i].set THEN Bubble(s[i], [s EXCEPT ![i] = e], i + 1)
         ELSE Bubble(e, s, i + 1)

Step == /\ pos < Len(pool)
        /\ pos' = pos + 1
        /\ LET x == pool[pos + 1]
               v == IF x = NaN /\ Bug # "nan" THEN Worst ELSE x
               room == Len(slots) < k
               s == IF room THEN Append(slots, [Empty EXCEPT !.v = Worst]) ELSE slots
               idx == IF Bug = "shift" THEN taken ELSE pos
           IN  /\ slots' = IF x = -1 THEN slots ELSE Bubble([set |-> TRUE, i |-> idx, v |-> v], s, 1)
               /\ taken' = IF x = -1 THEN taken ELSE taken + 1
        /\ UNCHANGED <<pool, k, asc>>
Spec == Init /\ [][Step]_vars

Out == LET s == SelectSeq(slots, LAMBDA e : e.set) IN [i \in DOMAIN s |-> s[i].i]
Correct ==
    LET I == {i \in 1..pos : pool[i] # -1}
        Val(i) == IF pool[i] = NaN THEN Worst ELSE pool[i]
        Better(i, j) == IF asc THEN Val(i) < Val(j) ELSE Val(j) < Val(i)
    IN  Answer(Out, I, k, Better)
=============================================================================
