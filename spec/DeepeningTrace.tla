--------------------------- MODULE DeepeningTrace ---------------------------
(***************************************************************************)
(* Iterative-deepening searches recorded from the real solvers, as         *)
(* behaviours of Deepening (X02).  Records as in SearchTrace, with est,    *)
(* prune and strict instead of pol.  A cell that lies beyond the bound may *)
(* be asked about when it is met, but need not be.                         *)
(***************************************************************************)
EXTENDS Deepening, SearchRecord

VARIABLES t, l, done

vars == <<m, bound, frames, table, over, res, t, l, done>>

Init ==
    /\ t \in 1..Len(Recs)
    /\ l = 1
    /\ done = FALSE
    /\ LET r == Recs[t] IN
         m = [adj |-> RecAdj(r), costs |-> RecCosts(r), start |-> First(r), goal |-> Other(r), est |-> r.est, prune |-> r.prune, strict |-> r.strict,
              h |-> RecHeur(r)]
    /\ DeepInit

Trivial == /\ Degenerate(Recs[t]) /\ ~done
           /\ Recs[t].log = <<>>
           /\ done' = TRUE
           /\ PrintT(<<"DONE", t>>)
           /\ UNCHANGED <<m, bound, frames, table, over, res, t, l>>

More == ~Degenerate(Recs[t]) /\ ~done /\ l <= Len(Recs[t].log) /\ First(Recs[t]) \in {Recs[t].s, Recs[t].e}

Begin == /\ More /\ Recs[t].log[l] = m.start
         /\ Round(l = 1)
         /\ l' = l + 1
         /\ UNCHANGED <<t, done>>

Ask == /\ More /\ res = "run"
       /\ Enter(Recs[t].log[l])
       /\ l' = l + 1
       /\ UNCHANGED <<t, done>>

Back == /\ ~done /\ res = "run" /\ l > 1
        /\ Leave
        /\ UNCHANGED <<t, l, done>>

Finish == /\ ~done /\ l = Len(Recs[t].log) + 1 /\ l > 1
          /\ IF Recs[t].trunc THEN UNCHANGED <<m, bound, frames, table, over, res>>
             ELSE IF Recs[t].found THEN Succeed ELSE Fail
          /\ done' = TRUE
          /\ PrintT(<<"DONE", t>>)
          /\ UNCHANGED <<t, l>>

Next == Trivial \/ Begin \/ Ask \/ Back \/ Finish

Spec == Init /\ [][Next]_vars
=============================================================================
