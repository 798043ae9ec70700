---------------------------- MODULE MCDeepening ----------------------------
(***************************************************************************)
(* Deepening on every wall pattern and pair of ends of the given shapes.   *)
(***************************************************************************)
EXTENDS Deepening, Spaces

CONSTANTS Shapes

Quick    == [ grids |-> { <<3>>, <<2, 2>>, <<3, 2>> }, nodes |-> 4, weights |-> {0, 1, 3} ]
Thorough == [ grids |-> { <<5>>, <<4, 2>>, <<3, 3>> }, nodes |-> 4, weights |-> {0, 1, 2, 4} ]

VARIABLES cost, begun

mcvars == <<m, bound, frames, table, over, res, cost, begun>>

Kinds == { <<"g", "path", FALSE>>, <<"g", "loose", FALSE>>, <<"f", "path", TRUE>>, <<"f", "table", FALSE>>,
           <<"h", "path", FALSE>>, <<"h", "table", FALSE>> }

Init ==
    /\ \E x \in { y \in GridSpaces(Shapes.grids, {FALSE}) \cup GraphSpaces(Shapes.nodes, Shapes.weights) : y.s # y.e } :
         \E k \in Kinds, informed \in BOOLEAN :
              /\ (k[1] = "g") => ~informed /\ x.unit
              /\ m = [adj |-> x.adj, costs |-> x.costs, start |-> x.s, goal |-> x.e, est |-> k[1], prune |-> k[2], strict |-> k[3], h |-> Heuristic(x, informed)]
              /\ cost = CostsFrom(x, x.s)
    /\ begun = FALSE
    /\ DeepInit

Next == /\ \/ Round(~begun) /\ begun' = TRUE
           \/ (\E c \in m.adj[IF frames = <<>> THEN m.start ELSE Top.c] : Enter(c)) /\ UNCHANGED begun
           \/ Leave /\ UNCHANGED begun
           \/ Succeed /\ UNCHANGED begun
           \/ begun /\ Fail /\ UNCHANGED begun
        /\ UNCHANGED cost

Spec == Init /\ [][Next]_mcvars /\ WF_mcvars(Next)

Path == [k \in 1..Len(frames) |-> frames[k].c]

\* ------------------------------------------------------------ properties

FoundRight == res = "found" => cost[m.goal] < INF /\ IsRoute(m.adj, Path, m.start, m.goal)
FailRight  == res = "fail" => cost[m.goal] = INF
Cheapest   == (res = "found" /\ (m.est = "g" \/ m.strict \/ m.costs = UnitCosts) /\ m.est # "h") => Top.g = cost[m.goal]
Within     == res = "run" => \A k \in 1..Len(frames) : Est(frames[k].c, frames[k].g) <= bound
Grows      == [][bound' # bound => bound' = over /\ bound' > bound]_mcvars
ByOne      == [][(m.est = "g" /\ bound' # bound) => bound' = bound + 1]_mcvars
Terminates == <>(res \in {"found", "fail"})
=============================================================================
