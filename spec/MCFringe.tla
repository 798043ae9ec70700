------------------------------ MODULE MCFringe ------------------------------
(***************************************************************************)
(* Fringe on every wall pattern and pair of ends of the given shapes.      *)
(***************************************************************************)
EXTENDS Fringe, Spaces

CONSTANTS Shapes

Quick    == [ grids |-> { <<3>>, <<2, 2>>, <<3, 2>> }, nodes |-> 4, weights |-> {0, 1, 3} ]
Thorough == [ grids |-> { <<5>>, <<4, 2>>, <<3, 3>> }, nodes |-> 4, weights |-> {0, 1, 2, 4} ]

VARIABLES cost

mcvars == <<m, limit, now, next, vis, over, grew, res, cost>>

Init ==
    /\ \E x \in { y \in GridSpaces(Shapes.grids, {FALSE}) \cup GraphSpaces(Shapes.nodes, Shapes.weights) : y.s # y.e } :
         \E informed \in BOOLEAN :
              /\ m = [adj |-> x.adj, costs |-> x.costs, start |-> x.s, goal |-> x.e, h |-> Heuristic(x, informed)]
              /\ cost = CostsFrom(x, x.s)
    /\ FringeInit

Next == ((\E x \in now : Visit(x)) \/ NextPass \/ Succeed \/ Fail) /\ UNCHANGED cost

Spec == Init /\ [][Next]_mcvars /\ WF_mcvars(Next)

FoundRight == res = "found" => cost[m.goal] < INF
FailRight  == res = "fail" => cost[m.goal] = INF /\ vis = { c \in DOMAIN cost : cost[c] < INF }
Cheapest   == res = "found" => \A x \in now : x.c = m.goal => x.g = cost[m.goal]
\* with a consistent heuristic, every visited cell is reached at its distance
Exact      == \A x \in now \cup next : x.g = cost[x.c]
Within     == \A x \in now \cup next : x.g + m.h[x.c] <= limit
Grows      == [][limit' # limit => limit' > limit /\ limit' = over]_mcvars
Terminates == <>(res # "run")
=============================================================================
