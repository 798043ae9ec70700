-------------------------------- MODULE Entry --------------------------------
(***************************************************************************)
(* The entry point of the searches (solver::solve): it judges the request, *)
(* runs the algorithm if there is something to search, and afterwards      *)
(* resets the memory pools, whatever happened.                             *)
(*                                                                         *)
(* q: the request                                                          *)
(*   inside  are start and end inside of the maze, and open?               *)
(*   same    are they the same cell?                                       *)
(*   cleanup is cleanup enabled?                                           *)
(*   fails   does the algorithm throw?                                     *)
(*   pools   one of "ok", "throw", "null", "hidden" for each of 0, 1, 2    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES q, phase, left, log, exc, answer

evars == <<q, phase, left, log, exc, answer>>

Pools == {0, 1, 2}
\* Pools on which a reset can be called.
Resettable(rq) == IF rq.cleanup THEN { p \in Pools : rq.pools[p] \in {"ok", "throw"} } ELSE {}

EntryInit == /\ phase = "judge"
             /\ left = Resettable(q)
             /\ log = <<>>
             /\ exc = ""
             /\ answer = "none"

JudgeRequest ==
    /\ phase = "judge"
    /\ IF ~q.inside THEN phase' = "clean" /\ answer' = "empty"
       ELSE IF q.same THEN phase' = "clean" /\ answer' = "end"
       ELSE phase' = "run" /\ UNCHANGED answer
    /\ UNCHANGED <<q, left, log, exc>>

Run ==
    /\ phase = "run"
    /\ log' = Append(log, "run")
    /\ IF q.fails THEN exc' = "algo" /\ UNCHANGED answer
       ELSE answer' = "route" /\ UNCHANGED exc
    /\ phase' = "clean"
    /\ UNCHANGED <<q, left>>

Name(p) == CASE p = 0 -> "r0" [] p = 1 -> "r1" [] OTHER -> "r2"

Reset(p) ==
    /\ phase = "clean" /\ p \in left
    /\ left' = left \ {p}
    /\ log' = Append(log, Name(p))
    /\ exc' = (IF exc = "" /\ q.pools[p] = "throw" THEN Name(p) ELSE exc)
    /\ UNCHANGED <<q, phase, answer>>

Return ==
    /\ phase = "clean" /\ left = {}
    /\ phase' = (IF exc = "" THEN "returned" ELSE "thrown")
    /\ UNCHANGED <<q, left, log, exc, answer>>

EntryNext == JudgeRequest \/ Run \/ (\E p \in Pools : Reset(p)) \/ Return
=============================================================================
