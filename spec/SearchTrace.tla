---------------------------- MODULE SearchTrace ----------------------------
(***************************************************************************)
(* Searches recorded from the real solvers, as behaviours of Search (X01,  *)
(* S06).  Records of SearchRecord, with pol (a policy of Search), goal (is *)
(* there one?), open ("any": the search may end whenever it likes).        *)
(* The record is explained if some behaviour of Search expands exactly the *)
(* cells of the log in that order and then ends the way the search did.    *)
(***************************************************************************)
EXTENDS Search, SearchRecord

VARIABLES t, l, done, again \* again: mgstar has looked at its start a second time

vars == <<m, open, closed, par, tick, res, t, l, done, again>>

Init ==
    /\ t \in 1..Len(Recs)
    /\ l = 1
    /\ done = FALSE /\ again = FALSE
    /\ LET r == Recs[t] IN
         m = [adj |-> RecAdj(r), costs |-> RecCosts(r), start |-> First(r), goal |-> IF r.goal THEN Other(r) ELSE -1, pol |-> r.pol,
              h |-> RecHeur(r)]
    /\ SearchInit

Trivial == /\ Degenerate(Recs[t]) /\ ~done
           /\ Recs[t].log = <<>>
           /\ done' = TRUE
           /\ PrintT(<<"DONE", t>>)
           /\ UNCHANGED <<m, open, closed, par, tick, res, t, l, again>>

Step == /\ ~Degenerate(Recs[t]) /\ ~done
        /\ First(Recs[t]) \in {Recs[t].s, Recs[t].e}
        /\ l <= Len(Recs[t].log)
        /\ \E x \in open : x.c = Recs[t].log[l] /\ Expand(x)
        /\ l' = l + 1
        /\ UNCHANGED <<t, done, again>>

\* Having found a route, mgstar looks for a better one by way of its start, once.
Retry == /\ ~Degenerate(Recs[t]) /\ ~done /\ ~again
         /\ Recs[t].sv = "mgstar"
         /\ l <= Len(Recs[t].log)
         /\ Recs[t].log[l] = m.start /\ m.start \in closed
         /\ Other(Recs[t]) \in Seen
         /\ again' = TRUE /\ l' = l + 1
         /\ UNCHANGED <<m, open, closed, par, tick, res, t, done>>

\* The end of the log is where the search may end.
Finish == /\ ~Degenerate(Recs[t]) /\ ~done
          /\ l = Len(Recs[t].log) + 1 /\ l > 1
          /\ IF Recs[t].open \/ Recs[t].trunc THEN UNCHANGED <<m, open, closed, par, tick, res>>
             ELSE IF Recs[t].goal THEN IF Recs[t].found THEN Succeed ELSE Fail
             ELSE Fail /\ (Recs[t].found <=> Other(Recs[t]) \in closed)
          /\ done' = TRUE
          /\ PrintT(<<"DONE", t>>)
          /\ UNCHANGED <<t, l, again>>

Next == Trivial \/ Step \/ Retry \/ Finish

Spec == Init /\ [][Next]_vars
=============================================================================
