--------------------------- MODULE GraveyardTrace ---------------------------
(***************************************************************************)
(* Searches recorded from the real graveyard solvers, as behaviours of     *)
(* Graveyard (X03).  Records of SearchRecord, with                         *)
(*   held  the number of nodes that the search kept, at every question     *)
(*   last  and at its end                                                  *)
(*   dup   can cells wait several times?                                   *)
(*   mute  the questions were not recorded (gjps): only the end is judged  *)
(***************************************************************************)
EXTENDS Graveyard, SearchRecord

VARIABLES t, l, done

vars == <<m, open, closed, up, res, t, l, done>>

Init ==
    /\ t \in 1..Len(Recs)
    /\ l = 1
    /\ done = FALSE
    /\ LET r == Recs[t] IN
         m = [adj |-> RecAdj(r), costs |-> RecCosts(r), start |-> First(r), goal |-> Other(r), dup |-> r.dup, h |-> RecHeur(r)]
    /\ GraveInit

Trivial == /\ Degenerate(Recs[t]) /\ ~done
           /\ Recs[t].log = <<>> /\ Recs[t].last = 0
           /\ done' = TRUE
           /\ PrintT(<<"DONE", t>>)
           /\ UNCHANGED <<m, open, closed, up, res, t, l>>

Mute == /\ ~Degenerate(Recs[t]) /\ ~done
        /\ Recs[t].mute
        /\ ~Recs[t].found => Recs[t].last = 0
        /\ done' = TRUE
        /\ PrintT(<<"DONE", t>>)
        /\ UNCHANGED <<m, open, closed, up, res, t, l>>

\* What is left over of a cell is dropped before anything of a greater key is looked at; what has an equal key may have
\* been dropped, or not: whether there is a choice that leaves n nodes.
Must(x) == { y \in open : Stale(y) /\ Key(y) < Key(x) }
May(x)  == { y \in open : Stale(y) /\ Key(y) = Key(x) }
Keeps(x, n) ==
    LET rest == open \ Must(x)
        may  == May(x)
    IN IF Cardinality(may) <= 5 THEN \E d \in SUBSET may : n = Cardinality(Needed(rest \ d))
       ELSE Cardinality(Needed(rest \ may)) <= n /\ n <= Cardinality(Needed(rest))

Step == /\ ~Degenerate(Recs[t]) /\ ~done /\ ~Recs[t].mute
        /\ First(Recs[t]) \in {Recs[t].s, Recs[t].e}
        /\ l <= Len(Recs[t].log)
        /\ \E x \in open :
             /\ x.c = Recs[t].log[l]
             /\ x.c # m.goal /\ x.c \notin closed
             /\ \A y \in open : y.c = x.c => x.g <= y.g
             /\ Keeps(x, Recs[t].held[l])
             /\ closed' = closed \cup {x.c}
             /\ up' = up \cup { <<x.c, x.p>> }
             /\ open' = (open \ ({x} \cup Must(x))) \cup { [c |-> e, p |-> x.c, g |-> x.g + StepCost(m.costs, x.c, e)] : e \in Fresh(x) }
        /\ l' = l + 1
        /\ UNCHANGED <<m, res, t, done>>

Finish == /\ ~Degenerate(Recs[t]) /\ ~done /\ ~Recs[t].mute
          /\ l = Len(Recs[t].log) + 1 /\ l > 1
          /\ IF Recs[t].found
             THEN \E x \in open : x.c = m.goal /\ Keeps(x, Recs[t].last)
             ELSE (\A x \in open : Stale(x)) /\ Recs[t].last = 0
          /\ done' = TRUE
          /\ PrintT(<<"DONE", t>>)
          /\ UNCHANGED <<m, open, closed, up, res, t, l>>

Next == Trivial \/ Mute \/ Step \/ Finish

Spec == Init /\ [][Next]_vars
=============================================================================
