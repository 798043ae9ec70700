------------------------------- MODULE SeqTrace -------------------------------
(* Recorded sessions with real queues and stacks as behaviours of Containers (C02).  Records: see harness/containers.cc. *)
EXTENDS Containers, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, l
vars == <<box, gone, t, l>>

Init == t \in 1..Len(Recs) /\ l = 1 /\ gone = {} /\ box = [x \in {} |-> <<>>]

Step(e) ==
    LET s == e.s IN
    CASE e.op = "n" -> Create(s, <<>>)
      [] e.op = "c" -> CopyTo(s, e.d, box[e.d])
      [] e.op = "m" -> MoveTo(s, e.d, box[e.d])
      [] e.op = "w" -> Swap(s, e.d)
      [] e.op = "z" -> Destroy(s)
      [] e.op \in {"p", "e"} -> SPush(s, e.a)
      [] e.op = "o" -> SPop(s, e.ret, Recs[t].lifo)
      [] e.op = "C" -> s \in Boxed /\ Put(s, <<>>)
      [] OTHER -> FALSE

Shown(e) ==
    /\ { e.obs[k].s : k \in 1..Len(e.obs) } = InUse'
    /\ \A k \in 1..Len(e.obs) : LET o == e.obs[k] IN
         /\ SShows(box'[o.s], o.size, o.top, o.seen, o.back, Recs[t].lifo)
         /\ o.empty = (IF o.size = 0 THEN 1 ELSE 0)
         /\ "odd" \notin DOMAIN o

Next == /\ l <= Len(Recs[t].events)
        /\ Step(Recs[t].events[l])
        /\ Shown(Recs[t].events[l])
        /\ l' = l + 1
        /\ IF l = Len(Recs[t].events) THEN PrintT(<<"DONE", t>>) ELSE TRUE
        /\ UNCHANGED t

Spec == Init /\ [][Next]_vars
=============================================================================
