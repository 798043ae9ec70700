------------------------------ MODULE HeapTrace ------------------------------
(* Recorded sessions with real heaps as behaviours of Containers (C01).  Records: see harness/containers.cc. *)
EXTENDS Containers, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, l
vars == <<box, gone, t, l>>

Init == t \in 1..Len(Recs) /\ l = 1 /\ gone = {} /\ box = [x \in {} |-> EmptyHeap]

Range(q) == { q[k] : k \in 1..Len(q) }

Step(e) ==
    LET s == e.s  order == IF s \in InUse THEN box[s].order ELSE "" IN
    CASE e.op = "n" -> Create(s, EmptyHeap)
      [] e.op = "F" -> Create(s, Heap(Range(e.ids), "heap"))
      [] e.op = "c" -> CopyTo(s, e.d, box[e.d])
      [] e.op = "m" -> MoveTo(s, e.d, box[e.d])
      [] e.op = "w" -> Swap(s, e.d)
      [] e.op = "z" -> Destroy(s)
      [] e.op \in {"p", "e", "q", "Q", "L"} -> HPush(s, <<e.b, e.a>>)
      [] e.op = "i" -> HPush(s, <<e.b, e.a>>) /\ e.ret = e.a
      [] e.op = "N" -> HAppend(s, <<e.b, e.a>>)
      [] e.op = "S" -> HSort(s)
      [] e.op = "o" -> HRemoveTop(s, e.ret)
      [] e.op = "D" -> HRemoveTop(s, e.ret) /\ <<e.rkey, e.ret>> \in box[s].items
      [] e.op \in {"b", "E", "I"} -> HRemove(s, e.ret)
      [] e.op = "R" -> HRemoveAll(s, Range(e.ids))
      [] e.op = "U" -> HRekey(s, e.ret, e.b)
      [] e.op = "C" -> Put(s, EmptyHeap)
      [] e.op \in {"T", "X"} -> UNCHANGED cvars
      [] e.op = "k" -> e.ret = 1 /\ UNCHANGED cvars
      [] e.op = "l" -> (IF e.ret = 0 THEN \A x \in box[s].items : x[1] < e.a ELSE Has(s, e.ret) /\ ItemOf(s, e.ret)[1] >= e.a) /\ UNCHANGED cvars
      [] e.op = "u" -> (IF e.ret = 0 THEN \A x \in box[s].items : x[1] <= e.a ELSE Has(s, e.ret) /\ ItemOf(s, e.ret)[1] > e.a) /\ UNCHANGED cvars
      [] e.op = "r" -> Range(e.ids) = box[s].items /\ Len(e.ids) = Cardinality(box[s].items) /\ UNCHANGED cvars
      [] OTHER -> FALSE

Shown(e) ==
    /\ { e.obs[k].s : k \in 1..Len(e.obs) } = InUse'
    /\ \A k \in 1..Len(e.obs) : LET o == e.obs[k] IN
         /\ HShows(box'[o.s], o.size, o.top, o.back, o.seen)
         /\ o.empty = (IF o.size = 0 THEN 1 ELSE 0)
         /\ "odd" \notin DOMAIN o

Next == /\ l <= Len(Recs[t].events)
        /\ Step(Recs[t].events[l])
        /\ Shown(Recs[t].events[l])
        /\ l' = l + 1
        /\ IF l = Len(Recs[t].events) THEN PrintT(<<"DONE", t>>) ELSE TRUE
        /\ UNCHANGED t

Spec == Init /\ [][Next]_vars
=============================================================================
