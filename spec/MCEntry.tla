------------------------------- MODULE MCEntry -------------------------------
(* Every request. *)
EXTENDS Entry

Modes == {"ok", "throw", "null", "hidden"}

Init == /\ q \in [inside : BOOLEAN, same : BOOLEAN, cleanup : BOOLEAN, fails : BOOLEAN, pools : [Pools -> Modes]]
        /\ EntryInit

Spec == Init /\ [][EntryNext]_evars /\ WF_evars(EntryNext)

Ended == phase \in {"returned", "thrown"}
Count(e) == Cardinality({ k \in 1..Len(log) : log[k] = e })

\* Each pool is reset exactly once with cleanup, and not at all without.
ResetOnce == Ended => \A p \in Pools : Count(Name(p)) = (IF q.cleanup /\ q.pools[p] \in {"ok", "throw"} THEN 1 ELSE 0)
RunRight  == Ended => Count("run") = (IF q.inside /\ ~q.same THEN 1 ELSE 0)
RunFirst  == \A k \in 1..Len(log) : log[k] = "run" => k = 1
\* The first failure, and only a failure, reaches the caller.
Threw(e)  == (e = "run" /\ q.fails) \/ (\E p \in Pools : e = Name(p) /\ q.pools[p] = "throw")
FirstWins == Ended => LET bad == { k \in 1..Len(log) : Threw(log[k]) }
                      IN IF bad = {} THEN phase = "returned" /\ exc = ""
                         ELSE LET f == CHOOSE k \in bad : \A j \in bad : k <= j
                              IN phase = "thrown" /\ exc = (IF log[f] = "run" THEN "algo" ELSE log[f])
Answers   == phase = "returned" => answer = (IF ~q.inside THEN "empty" ELSE IF q.same THEN "end" ELSE "route")
Terminates == <>Ended
=============================================================================
