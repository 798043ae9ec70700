------------------------------ MODULE PoolTrace ------------------------------
(***************************************************************************)
(* Recorded sessions with the real pools as behaviours of Pool.  Record:   *)
(* events (see harness/pool.cc), keep.                                     *)
(***************************************************************************)
EXTENDS Pool, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, l

vars == <<up, objs, live, failed, t, l>>

Init == t \in 1..Len(Recs) /\ l = 1 /\ PoolInit

Step(e) ==
    CASE e[1] = 0  -> AllocBegins
      [] e[1] = 1  -> Take(e[2], e[3], e[4])
      [] e[1] = 2  -> Give(e[2])
      [] e[1] = 3  -> UpstreamFails
      [] e[1] = 4  -> Allocate(e[2], e[3], e[4], e[5], e[6])
      [] e[1] = 5  -> Exhausted(e[2])
      [] e[1] = 6  -> Deallocate(e[2], e[3], Recs[t].keep)
      [] e[1] = 7  -> Reset(e[2])
      [] e[1] = 8  -> Reset(e[2])
      [] e[1] = 9  -> Move(e[2], e[3])
      [] e[1] = 10 -> Assign(e[2], e[3])
      [] e[1] = 11 -> Destroy(e[2])
      [] e[1] = 13 -> Construct(e[2], e[3], e[4])
      [] e[1] = 14 -> Nowhere
      [] e[1] = 16 -> Compare(e[2], e[3], e[4])
      [] OTHER     -> FALSE \* a block was corrupted, or something else was thrown

Next == /\ l <= Len(Recs[t].events)
        /\ Step(Recs[t].events[l])
        /\ l' = l + 1
        /\ IF l = Len(Recs[t].events) /\ Finished' THEN PrintT(<<"DONE", t>>) ELSE TRUE
        /\ UNCHANGED t

Spec == Init /\ [][Next]_vars
=============================================================================
