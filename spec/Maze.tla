-------------------------------- MODULE Maze --------------------------------
(***************************************************************************)
(* The search spaces of CHDR: grids of any dimension, with blocked cells   *)
(* and axis or octile steps, and weighted undirected graphs.  A cell is    *)
(* its index, 0 .. n-1, the first axis varying fastest.                    *)
(*                                                                         *)
(* Everything the other modules say about routes is said in terms of an    *)
(* adjacency function  adj \in [Cells -> SUBSET Cells], and of a set of    *)
(* weighted edges <<u, v, w>> for graphs.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* ---------------------------------------------------------------- grids

RECURSIVE Prod(_)
Prod(sz) == IF sz = <<>> THEN 1 ELSE Head(sz) * Prod(Tail(sz))

\* Stride of axis k.
Stride(sz, k) == Prod(SubSeq(sz, 1, k - 1))

Coord(i, sz) == [k \in 1..Len(sz) |-> (i \div Stride(sz, k)) % sz[k]]

RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)

Index(c, sz) == SumTo([k \in 1..Len(sz) |-> c[k] * Stride(sz, k)], Len(sz))

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

\* The steps: one axis by one, or (octile) any non-empty set of axes by one each.
AxisSteps(K)   == { [k \in 1..K |-> IF k = a THEN d ELSE 0] : a \in 1..K, d \in {-1, 1} }
OctileSteps(K) == [1..K -> {-1, 0, 1}] \ { [k \in 1..K |-> 0] }
Steps(K, oct)  == IF oct THEN OctileSteps(K) ELSE AxisSteps(K)

InGrid(c, sz) == \A k \in 1..Len(sz) : c[k] >= 0 /\ c[k] < sz[k]

GridNeighbours(i, sz, steps) ==
    LET K == Len(sz)
        c == TLCEval(Coord(i, sz))
        moved == { [k \in 1..K |-> c[k] + d[k]] : d \in steps }
    IN { Index(m, sz) : m \in { x \in moved : InGrid(x, sz) } }

\* Adjacency restricted to open cells.
GridAdj(sz, open, oct) ==
    LET steps == TLCEval(Steps(Len(sz), oct))
    IN TLCEval([ i \in 0..(Prod(sz) - 1) |-> IF i \in open THEN TLCEval(GridNeighbours(i, sz, steps) \cap open) ELSE {} ])

\* ---------------------------------------------------------------- graphs

\* edges: a set of <<u, v, w>>, each standing for both directions.
GraphAdj(n, edges) ==
    TLCEval([ i \in 0..(n - 1) |-> { e[2] : e \in { x \in edges : x[1] = i } } \cup { e[1] : e \in { x \in edges : x[2] = i } } ])

\* What a step from u to v costs: costs[u][v], or one if there is nothing to look up.
UnitCosts == <<>>
StepCost(costs, u, v) == IF costs = UnitCosts THEN 1 ELSE costs[u][v]

\* Cheapest of the parallel edges joining u and v.
EdgeCost(edges, u, v) ==
    LET ws == { e[3] : e \in { x \in edges : (x[1] = u /\ x[2] = v) \/ (x[1] = v /\ x[2] = u) } }
    IN CHOOSE w \in ws : \A y \in ws : w <= y

GraphCosts(n, edges) ==
    LET adj == GraphAdj(n, edges)
    IN TLCEval([ u \in 0..(n - 1) |-> [ v \in adj[u] |-> EdgeCost(edges, u, v) ] ])

\* ---------------------------------------------------------------- routes

\* Layers of a breadth-first search from s: <<{s}, neighbours, ...>>.
RECURSIVE LayersFrom(_, _, _, _)
LayersFrom(adj, front, seen, acc) ==
    IF front = {} THEN acc
    ELSE LET next == TLCEval(UNION { adj[i] : i \in front } \ seen)
         IN LayersFrom(adj, next, seen \cup next, Append(acc, front))

Layers(adj, s) == LayersFrom(adj, {s}, {s}, <<>>)

Reachable(adj, s) == LET L == Layers(adj, s) IN UNION { L[i] : i \in 1..Len(L) }

\* Number of steps of a shortest route, -1 if there is none. (adj is symmetric: two layers are enough to remember.)
RECURSIVE StepsTo(_, _, _, _, _)
StepsTo(adj, prev, front, e, k) ==
    IF front = {} THEN -1
    ELSE IF e \in front THEN k
    ELSE LET next == TLCEval(UNION { adj[i] : i \in front } \ (front \cup prev))
         IN StepsTo(adj, front, next, e, k + 1)

StepDist(adj, s, e) == StepsTo(adj, {}, {s}, e, 0)

INF == 1000000000

\* Least cost from s to every node (fixpoint of relaxation).
RECURSIVE Relax(_, _, _)
Relax(n, edges, d) ==
    LET both == edges \cup { <<e[2], e[1], e[3]>> : e \in edges }
        d2 == TLCEval([ v \in 0..(n - 1) |->
                 LET cand == { d[e[1]] + e[3] : e \in { x \in both : x[2] = v /\ d[x[1]] < INF } } \cup { d[v] }
                 IN CHOOSE m \in cand : \A y \in cand : m <= y ])
    IN IF d2 = d THEN d ELSE Relax(n, edges, d2)

CostFrom(n, edges, s) == Relax(n, edges, [ v \in 0..(n - 1) |-> IF v = s THEN 0 ELSE INF ])

\* w is a walk along adj from s to e, visiting nothing twice.
IsRoute(adj, w, s, e) ==
    /\ Len(w) > 0
    /\ w[1] = s /\ w[Len(w)] = e
    /\ \A i \in 1..Len(w) : w[i] \in DOMAIN adj
    /\ \A i \in 1..(Len(w) - 1) : w[i + 1] \in adj[w[i]]
    /\ Cardinality({ w[i] : i \in 1..Len(w) }) = Len(w)

RECURSIVE RouteCost(_, _, _)
RouteCost(edges, w, i) == IF i >= Len(w) THEN 0 ELSE EdgeCost(edges, w[i], w[i + 1]) + RouteCost(edges, w, i + 1)

Reverse(w) == [ i \in 1..Len(w) |-> w[Len(w) + 1 - i] ]
=============================================================================
