--------------------------- MODULE BoundedRecord ---------------------------
(***************************************************************************)
(* The most that recorded searches of the memory-bounded solvers held at a *)
(* time (X04): records with sv (the solver), limit (in nodes), and peak,   *)
(* the number of blocks in use in both pools of nodes.                     *)
(* MGStar and SMAStar are the searches themselves, and keep to the limit.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

Recs == ndJsonDeserialize(IOEnv.TRACE)

\* mgstar counts one node more than there is, and may go one beyond the limit; its stack of nodes that can be given back
\* takes one block. smastar and osmastar may go one beyond the limit, too; their table takes one block, and, while it
\* grows, another (then, the second of the two nodes that they add at a time is not there yet).
Own(sv) == IF sv = "mgstar" THEN 1 ELSE 2

VARIABLES t, done

Init == t \in 1..Len(Recs) /\ done = FALSE

Next == /\ ~done
        /\ Recs[t].limit >= 2
        /\ Recs[t].peak <= Recs[t].limit + Own(Recs[t].sv)
        /\ PrintT(<<"DONE", t>>)
        /\ done' = TRUE
        /\ t' = t

Spec == Init /\ [][Next]_<<t, done>>
=============================================================================
