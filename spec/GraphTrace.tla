------------------------------ MODULE GraphTrace ------------------------------
(* Recorded sessions with real graphs as behaviours of GraphStore (G03, G04).  Records: see harness/graph.cc. *)
EXTENDS GraphStore, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, l
vars == <<box, gone, t, l>>

Init == t \in 1..Len(Recs) /\ l = 1 /\ gone = {} /\ box = [x \in {} |-> Nothing]

\* What a graph shows as a graph (each node once).
Shape(o) == [ u \in { o.nodes[k][1] : k \in 1..Len(o.nodes) } |->
                BagOf((CHOOSE x \in RangeOf(o.nodes) : x[1] = u)[2]) ]
ObsOf(e, s) == Shape(CHOOSE o \in RangeOf(e.obs) : o.s = s)

Step(e) ==
    LET s == e.s
        g == box[s]
    IN
    CASE e.op = "n" -> s \notin DOMAIN box /\ Put(s, [x \in {} |-> Nothing])
      [] e.op = "L" -> s \notin DOMAIN box /\ Put(s, FromLists([x \in {} |-> Nothing], 0, e.list))
      [] e.op = "a" -> Put(s, WithNode(g, e.a))
      [] e.op = "e" -> Put(s, WithEdge(g, e.a, <<e.b, e.w>>))
      [] e.op = "E" -> Put(s, IF e.a = e.b THEN WithEdge(g, e.a, <<e.b, e.w>>) ELSE WithEdge(WithEdge(g, e.a, <<e.b, e.w>>), e.b, <<e.a, e.w>>))
      [] e.op = "r" -> Put(s, WithoutEdge(g, e.a, <<e.b, e.w>>))
      [] e.op = "R" -> Put(s, IF e.a = e.b THEN WithoutEdge(g, e.a, <<e.b, e.w>>) ELSE WithoutEdge(WithoutEdge(g, e.a, <<e.b, e.w>>), e.b, <<e.a, e.w>>))
      [] e.op = "C" -> s \in DOMAIN box /\ Put(s, [x \in {} |-> Nothing])
      [] e.op = "m" -> e.a \in InUse /\ e.a # s /\ box' = (s :> box[e.a]) @@ box /\ gone' = (gone \ {s}) \cup {e.a}
      [] e.op = "P" -> LET h == ObsOf(e, s) IN
                         /\ (IF Symmetric(g) THEN IsPruned(g, h) ELSE TRUE) = TRUE
                         /\ Put(s, h)
      [] e.op = "z" -> box' = [x \in DOMAIN box \ {s} |-> box[x]] /\ gone' = gone \ {s}
      [] e.op = "q" -> UNCHANGED gvars
      [] OTHER -> FALSE

Shown(e) ==
    /\ { e.obs[k].s : k \in 1..Len(e.obs) } = InUse'
    /\ \A k \in 1..Len(e.obs) : LET o == e.obs[k]
                                    g == box'[o.s] IN
         /\ o.odd = 0
         /\ o.count = Cardinality(DOMAIN g)
         /\ Len(o.nodes) = Cardinality(DOMAIN g)
         /\ Shape(o) = g
         /\ RangeOf(o.has) = { u \in DOMAIN g : u <= 9 }

Next == /\ l <= Len(Recs[t].events)
        /\ Step(Recs[t].events[l])
        /\ Shown(Recs[t].events[l])
        /\ l' = l + 1
        /\ IF l = Len(Recs[t].events) THEN PrintT(<<"DONE", t>>) ELSE TRUE
        /\ UNCHANGED t

Spec == Init /\ [][Next]_vars
=============================================================================
