------------------------------- MODULE Spaces -------------------------------
(***************************************************************************)
(* The small search spaces on which the search machines are checked: every *)
(* wall pattern of the grids of some shapes, with axis or octile steps,    *)
(* and every weighted graph of a few nodes.  A space is                    *)
(*   [adj, costs, s, e, dist (steps from s), away (cost from s),           *)
(*    left (cost to e), unit]                                              *)
(***************************************************************************)
EXTENDS Maze

GridSpaces(shapes, octs) ==
    UNION { UNION { LET op  == (0..(Prod(sz) - 1)) \ walls
                        adj == GridAdj(sz, op, oct)
                    IN { [adj |-> adj, costs |-> UnitCosts, s |-> s, e |-> e, oct |-> oct, sizes |-> sz, unit |-> TRUE] : s \in op, e \in op }
                    : walls \in SUBSET (0..(Prod(sz) - 1)) } : sz \in shapes, oct \in octs }

Pairs(n) == { <<u, v>> \in (0..(n - 1)) \X (0..(n - 1)) : u < v }

\* f gives the weight of each pair, zero for none. The start is node 0.
GraphSpaces(n, weights) ==
    { LET edges == { <<p[1], p[2], f[p]>> : p \in { q \in Pairs(n) : f[q] > 0 } }
      IN [adj |-> GraphAdj(n, edges), costs |-> GraphCosts(n, edges), s |-> 0, e |-> n - 1, oct |-> FALSE, sizes |-> <<n>>, unit |-> FALSE]
      : f \in [Pairs(n) -> weights] }

\* Steps from a to every cell, -1 if there is none.
StepsFrom(x, a) == TLCEval([c \in DOMAIN x.adj |-> IF x.adj[a] = {} /\ c # a THEN -1 ELSE StepDist(x.adj, a, c)])

\* Cost from a to every cell, INF if there is none.
CostsFrom(x, a) ==
    IF x.unit THEN LET d == StepsFrom(x, a) IN TLCEval([c \in DOMAIN x.adj |-> IF d[c] < 0 THEN INF ELSE d[c]])
    ELSE LET edges == { <<u, v, x.costs[u][v]>> : <<u, v>> \in { q \in (DOMAIN x.adj) \X (DOMAIN x.adj) : q[2] \in x.adj[q[1]] } }
         IN CostFrom(Cardinality(DOMAIN x.adj), edges, a)

Manhattan(a, b, sz) ==
    LET f == [k \in 1..Len(sz) |-> Abs(Coord(a, sz)[k] - Coord(b, sz)[k])] IN SumTo(f, Len(sz))
Chebyshev(a, b, sz) ==
    LET s == { Abs(Coord(a, sz)[k] - Coord(b, sz)[k]) : k \in 1..Len(sz) } IN CHOOSE x \in s : \A y \in s : y <= x

\* Consistent heuristics for the goal e: none; in a grid the distance if there were no walls; in a graph half the cost that is left.
Heuristic(x, informed) ==
    LET left == TLCEval(CostsFrom(x, x.e))
    IN TLCEval([c \in DOMAIN x.adj |-> IF ~informed THEN 0
                                       ELSE IF ~x.unit THEN left[c] \div 2
                                       ELSE IF x.oct THEN Chebyshev(c, x.e, x.sizes) ELSE Manhattan(c, x.e, x.sizes)])
=============================================================================
