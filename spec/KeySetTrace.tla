----------------------------- MODULE KeySetTrace -----------------------------
(* Recorded sessions with real existence sets as behaviours of Containers (C03).  Records: see harness/containers.cc. *)
EXTENDS Containers, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, l
vars == <<box, gone, t, l>>

Init == t \in 1..Len(Recs) /\ l = 1 /\ gone = {} /\ box = [x \in {} |-> {}]

Range(q) == { q[k] : k \in 1..Len(q) }

Step(e) ==
    LET s == e.s IN
    IF e.op = "H" THEN e.threw = 1 /\ UNCHANGED cvars ELSE
    e.threw = 0 /\
    (CASE e.op = "n" -> Create(s, {})
      [] e.op = "c" -> CopyTo(s, e.d, box[e.d])
      [] e.op = "m" -> MoveTo(s, e.d, box[e.d])
      [] e.op = "z" -> Destroy(s)
      [] e.op = "p" -> EAdd(s, e.a)
      [] e.op = "x" -> EDel(s, e.a)
      [] e.op = "C" -> Put(s, {})
      [] e.op = "r" -> EResize(s, e.size, e.a, e.b # 0)
      [] e.op \in {"X", "t", "T", "k", "A"} -> UNCHANGED cvars
      [] OTHER -> FALSE)

Shown(e) ==
    /\ { e.obs[k].s : k \in 1..Len(e.obs) } = InUse'
    /\ \A k \in 1..Len(e.obs) : LET o == e.obs[k] IN
         /\ Range(o.seen) = box'[o.s] \cap { Recs[t].keys[j] : j \in 1..Len(Recs[t].keys) }
         /\ Range(o.all) = box'[o.s]
         /\ o.huge = 0

\* The extent of a set covers its members; trimming leaves no more than that, and reserving makes the room asked for.
Top(K) == IF K = {} THEN 0 ELSE 1 + CHOOSE k \in K : \A j \in K : j <= k
Extents(e) ==
    \A k \in 1..Len(e.obs) : LET o == e.obs[k] IN
         /\ o.size >= Top(box'[o.s]) /\ (o.empty = 1) = (o.size = 0)
         /\ o.size <= o.room
         /\ o.s = e.s => (CASE e.op = "t" -> o.size = Top(box'[o.s])
                           [] e.op = "C" -> o.size = 0
                           [] e.op = "r" -> o.size = e.a
                           [] e.op = "T" -> o.room >= e.a
                           [] OTHER -> TRUE)

Next == /\ l <= Len(Recs[t].events)
        /\ Step(Recs[t].events[l])
        /\ Shown(Recs[t].events[l])
        /\ Extents(Recs[t].events[l])
        /\ l' = l + 1
        /\ IF l = Len(Recs[t].events) THEN PrintT(<<"DONE", t>>) ELSE TRUE
        /\ UNCHANGED t

Spec == Init /\ [][Next]_vars
=============================================================================
