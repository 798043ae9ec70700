---------------------------- MODULE BuildContract ----------------------------
(***************************************************************************)
(* Judges the graphs that real builders make of a grid (G04), one JSON     *)
(* record per grid from harness/graph.cc, with several runs by different   *)
(* numbers of threads and schedules.  Distances in the grid are those of a *)
(* breadth-first search; that the distances in the graph are the same is   *)
(* certified edge by edge: no edge is shorter than the distance between    *)
(* its ends, and every node but the source has a neighbour on a shortest   *)
(* way to the source.                                                      *)
(***************************************************************************)
EXTENDS GraphStore, Json, IOUtils

VARIABLES i, done

Recs == ndJsonDeserialize(IOEnv.TRACE)

Expect(cond, k, why) == IF cond THEN TRUE ELSE PrintT(<<"BAD", i, k, why>>)

Shape(o) == TLCEval([ u \in { o.nodes[k][1] : k \in 1..Len(o.nodes) } |->
                BagOf((CHOOSE x \in RangeOf(o.nodes) : x[1] = u)[2]) ])

StepsFrom(adj, u) ==
    LET L == TLCEval(Layers(adj, u))
    IN TLCEval([ v \in DOMAIN adj |-> IF \E k \in 1..Len(L) : v \in L[k] THEN (CHOOSE k \in 1..Len(L) : v \in L[k]) - 1 ELSE INF ])

JudgeGraph(adj, open, h, k) ==
    /\ Expect(DOMAIN h \subseteq open, k, "a node that is no open cell")
    /\ Expect(Symmetric(h), k, "not symmetric")
    /\ Expect(\A u \in open : Cardinality(adj[u]) = 1 => u \in DOMAIN h, k, "a dead end is lost")
    /\ Expect(Compacted(h), k, "not compacted")
    /\ IF DOMAIN h \subseteq open /\ Symmetric(h)
       THEN \A u \in DOMAIN h :
              LET d == TLCEval(StepsFrom(adj, u)) IN
              /\ Expect(\A v \in DOMAIN h : \A e \in DOMAIN h[v] : e[2] > 0 /\ (d[v] < INF => d[e[1]] <= d[v] + e[2]) /\ (d[v] = INF => d[e[1]] = INF), k, "an edge shorter than the way")
              /\ Expect(\A v \in DOMAIN h \ {u} : d[v] < INF => \E e \in DOMAIN h[v] : d[v] = d[e[1]] + e[2], k, "a way is lost")
       ELSE TRUE

JudgeBuild(r) ==
    LET n     == Prod(r.sizes)
        open  == TLCEval((0..(n - 1)) \ RangeOf(r.walls))
        adj   == GridAdj(r.sizes, open, FALSE)
        gs    == TLCEval([ k \in 1..Len(r.runs) |-> Shape(r.runs[k]) ])
    IN /\ JudgeGraph(adj, open, gs[1], 1)
       /\ \A k \in 1..Len(r.runs) :
            LET x == r.runs[k] IN
            /\ Expect(gs[k] = gs[1], k, "depends on threads or schedule")
            /\ Expect(x.overlaps = 0, k, "threads use the memory resource at the same time")
            /\ Expect(x.odd = 0, k, "lookups disagree")
            /\ Expect(x.count = Cardinality(DOMAIN gs[k]) /\ Len(x.nodes) = x.count, k, "count")
            /\ Expect(RangeOf(x.has) = DOMAIN gs[k], k, "contains")

Init == i \in 1..Len(Recs) /\ done = FALSE /\ box = [x \in {} |-> Nothing] /\ gone = {}

Next == /\ ~done
        /\ JudgeBuild(Recs[i]) = TRUE
        /\ PrintT(<<"DONE", i>>)
        /\ done' = TRUE
        /\ UNCHANGED <<i, box, gone>>

Spec == Init /\ [][Next]_<<i, done, box, gone>>
=============================================================================
