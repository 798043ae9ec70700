---------------------------- MODULE SessionTrace ----------------------------
(***************************************************************************)
(* Recorded sessions of the real searches as behaviours of Session (S08,   *)
(* S10, S11).  Record: events (see harness/mem.cc), outs (the answers that *)
(* the events refer to), normal (the answers the requests have in a fresh  *)
(* process; those not listed are not known), mem (is the traffic recorded  *)
(* in events judged, too, or only the answers?).                           *)
(***************************************************************************)
EXTENDS Session, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, l

vars == <<live, cur, failed, answers, over, t, l>>

Init ==
    /\ t \in 1..Len(Recs)
    /\ l = 1
    /\ live = NoBlocks /\ cur = NoSearch /\ failed = FALSE /\ over = FALSE
    /\ answers = [q \in { Recs[t].normal[k].req : k \in DOMAIN Recs[t].normal } |->
                    (CHOOSE n \in { Recs[t].normal[k] : k \in DOMAIN Recs[t].normal } : n.req = q).answer]

Step(e) ==
    CASE e[1] = 1 -> Alloc(e[2], e[3], e[4], e[5])
      [] e[1] = 2 -> Dealloc(e[2], e[3], e[4], e[5])
      [] e[1] = 3 -> Reset(e[2])
      [] e[1] = 4 -> Fail(e[2])
      [] e[1] = 5 -> Begin(e[2], e[3] = 1)
      [] e[1] = 6 -> End(Recs[t].outs[e[2] + 1])
      [] OTHER    -> Destroy

Next == /\ l <= Len(Recs[t].events)
        /\ Step(Recs[t].events[l])
        /\ l' = l + 1
        /\ IF l = Len(Recs[t].events) THEN PrintT(<<"DONE", t>>) ELSE TRUE
        /\ UNCHANGED t

Spec == Init /\ [][Next]_vars
=============================================================================
