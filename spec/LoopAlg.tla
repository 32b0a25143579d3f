------------------------------- MODULE LoopAlg ------------------------------
(***************************************************************************)
(* The event loop as it is implemented: a counter, which each task is run  *)
(* by, and a flag that stops it. Checked against Loop.tla (C18):           *)
(*   - a task is run in loop n iff its interval says so, in all loops;     *)
(*   - no task is started after the stop.                                  *)
(* The constants describe implementations that were (or might be) wrong:   *)
(* CLAMP: larger intervals are cut to this; WRAP: the counter starts over  *)
(* at it (0: never); RECHECK: whether the flag is looked at again after    *)
(* the pause before a task.                                                *)
(***************************************************************************)
EXTENDS Loop
CONSTANTS NEVER, CLAMP, WRAP, RECHECK, MAXLOOP

T == {1, 2}
K == -1..6
VARIABLES k,        \* intervals
          i,        \* counter
          n,        \* loops so far
          at,       \* next task
          pc,       \* "check", "pause"
          stopped, late,
          ran       \* <<task, loop>>

vars == <<k, i, n, at, pc, stopped, late, ran>>

Init == /\ k \in [T -> K]
        /\ i = 0 /\ n = 0 /\ at = 1 /\ pc = "check" /\ stopped = FALSE /\ late = FALSE /\ ran = {}

Eff(x) == LET e == IF x < 1 THEN 1 ELSE x IN IF e > CLAMP THEN CLAMP ELSE e

Advance ==
    /\ pc' = "check"
    /\ IF at = 2
       THEN /\ at' = 1
            /\ n' = n + 1
            /\ i' = IF WRAP > 0 /\ i + 1 >= WRAP THEN 0 ELSE i + 1
       ELSE at' = at + 1 /\ UNCHANGED <<n, i>>

Check == /\ pc = "check" /\ n < MAXLOOP
         /\ IF stopped THEN pc' = "end" ELSE pc' = "pause"
         /\ UNCHANGED <<k, i, n, at, stopped, late, ran>>

Run == /\ pc = "pause"
       /\ IF stopped /\ RECHECK
          THEN pc' = "end" /\ UNCHANGED <<i, n, at, late, ran>>
          ELSE /\ Advance
               /\ IF Eff(k[at]) <= NEVER /\ i % Eff(k[at]) = 0
                  THEN ran' = ran \cup {<<at, n>>} /\ late' = (late \/ stopped)
                  ELSE UNCHANGED <<ran, late>>
       /\ UNCHANGED <<k, stopped>>

Stop == ~stopped /\ stopped' = TRUE /\ UNCHANGED <<k, i, n, at, pc, late, ran>>

Next == Check \/ Run \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Check \/ Run)

\* Everything before position (n, at) is as specified.
Exact == \A t \in T : \A m \in 0..n :
            (m < n \/ t < at) => (<<t, m>> \in ran <=> Runs(k[t], m, NEVER))
NotLate == ~late
Ends == stopped ~> (pc = "end" \/ n = MAXLOOP)
=============================================================================
