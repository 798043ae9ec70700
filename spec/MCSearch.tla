------------------------------ MODULE MCSearch ------------------------------
(***************************************************************************)
(* Search on every wall pattern, pair of ends, step rule and policy of the *)
(* given shapes.                                                           *)
(***************************************************************************)
EXTENDS Search, Spaces

CONSTANTS Shapes

Quick    == [ grids |-> { <<3>>, <<2, 2>>, <<3, 2>> }, nodes |-> 4, weights |-> {0, 1, 3} ]
Thorough == [ grids |-> { <<5>>, <<3, 3>>, <<2, 4>>, <<2, 2, 2>> }, nodes |-> 4, weights |-> {0, 1, 2, 4} ]

VARIABLES dist, \* steps from the start to every cell,
          cost  \* and what it costs (constants of the behaviour)

mcvars == <<m, open, closed, par, tick, res, dist, cost>>

Init ==
    /\ \E x \in GridSpaces(Shapes.grids, BOOLEAN) \cup GraphSpaces(Shapes.nodes, Shapes.weights) :
         \E pol \in {"fifo", "lifo", "minh", "minf", "any"}, aimed \in BOOLEAN, informed \in BOOLEAN :
           /\ pol \in {"fifo", "lifo", "any"} => ~informed
           /\ pol = "minh" => informed
           /\ ~aimed => ~informed /\ (x.e = x.s \/ ~x.unit) \* without a goal, e does not matter: one of them will do
           /\ m = [adj |-> x.adj, costs |-> x.costs, start |-> x.s, goal |-> IF aimed THEN x.e ELSE -1, pol |-> pol, h |-> Heuristic(x, informed)]
           /\ dist = StepsFrom(x, x.s)
           /\ cost = CostsFrom(x, x.s)
    /\ SearchInit

Next == SearchNext /\ UNCHANGED <<dist, cost>>

Spec == Init /\ [][Next]_mcvars /\ WF_mcvars(Next)

\* ------------------------------------------------------------ properties

OnlyReachable == \A c \in Seen : dist[c] >= 0
Disjoint      == \A x \in open : x.c \notin closed
FoundRight    == res = "found" => m.goal >= 0 /\ dist[m.goal] >= 0
FailRight     == res = "fail" => /\ (m.goal = -1 \/ dist[m.goal] = -1)
                                 /\ closed = { c \in DOMAIN dist : dist[c] >= 0 }
GoalUnopened  == m.goal \notin closed
Routes        == \A c \in Seen : LET w == RouteTo(c, Cardinality(DOMAIN dist))
                                 IN IsRoute(m.adj, w, m.start, c)
RECURSIVE CostOf(_, _)
CostOf(w, k)  == IF k >= Len(w) THEN 0 ELSE StepCost(m.costs, w[k], w[k + 1]) + CostOf(w, k + 1)
CostKept      == \A x \in open : x.g = CostOf(RouteTo(x.c, Cardinality(DOMAIN dist)), 1) /\ x.g >= cost[x.c]
\* The orders which promise a shortest (cheapest) route keep that promise.
Shortest      == (res = "found" /\ m.pol = "fifo") => Len(RouteTo(m.goal, Cardinality(DOMAIN dist))) - 1 = dist[m.goal]
Cheapest      == (res = "found" /\ m.pol = "minf") => \A x \in open : x.c = m.goal => x.g = cost[m.goal]
\* Cells are closed with their final length or cost.
Settled       == \A c \in closed : LET w == RouteTo(c, Cardinality(DOMAIN dist))
                                   IN /\ m.pol = "fifo" => Len(w) - 1 = dist[c]
                                      /\ m.pol = "minf" => CostOf(w, 1) = cost[c]
Once          == Cardinality(closed) = tick
Progress      == [][res' = "run" => tick' = tick + 1]_mcvars
Terminates    == <>(res # "run")
=============================================================================
