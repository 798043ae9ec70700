---------------------------- MODULE FringeTrace ----------------------------
(***************************************************************************)
(* Fringe searches recorded from the real solver, as behaviours of Fringe  *)
(* (X02).  Records as in SearchTrace.                                      *)
(***************************************************************************)
EXTENDS Fringe, SearchRecord

VARIABLES t, l, done

vars == <<m, limit, now, next, vis, over, grew, res, t, l, done>>

Init ==
    /\ t \in 1..Len(Recs)
    /\ l = 1
    /\ done = FALSE
    /\ LET r == Recs[t] IN
         m = [adj |-> RecAdj(r), costs |-> RecCosts(r), start |-> First(r), goal |-> Other(r),
              h |-> RecHeur(r)]
    /\ FringeInit

Trivial == /\ Degenerate(Recs[t]) /\ ~done
           /\ Recs[t].log = <<>>
           /\ done' = TRUE
           /\ PrintT(<<"DONE", t>>)
           /\ UNCHANGED <<m, limit, now, next, vis, over, grew, res, t, l>>

Ask == /\ ~Degenerate(Recs[t]) /\ ~done /\ l <= Len(Recs[t].log) /\ First(Recs[t]) \in {Recs[t].s, Recs[t].e}
       /\ \E x \in now : x.c = Recs[t].log[l] /\ Visit(x)
       /\ l' = l + 1
       /\ UNCHANGED <<t, done>>

Turn == /\ ~done /\ l > 1
        /\ NextPass
        /\ UNCHANGED <<t, l, done>>

Finish == /\ ~done /\ l = Len(Recs[t].log) + 1 /\ l > 1
          /\ IF Recs[t].trunc THEN UNCHANGED <<m, limit, now, next, vis, over, grew, res>>
             ELSE IF Recs[t].found THEN Succeed ELSE Fail
          /\ done' = TRUE
          /\ PrintT(<<"DONE", t>>)
          /\ UNCHANGED <<t, l>>

Next == Trivial \/ Ask \/ Turn \/ Finish

Spec == Init /\ [][Next]_vars
=============================================================================
