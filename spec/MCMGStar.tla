------------------------------ MODULE MCMGStar ------------------------------
(***************************************************************************)
(* MGStar on every wall pattern of small shapes and every small weighted   *)
(* graph, for every limit, in every order of neighbours and of ties.       *)
(***************************************************************************)
EXTENDS MGStar, Spaces

CONSTANTS Shapes

Quick    == [ grids |-> { <<3>>, <<2, 2>>, <<3, 2>> }, nodes |-> 4, weights |-> {0, 1, 3}, lims |-> 1..8 ]
Thorough == [ grids |-> { <<5>>, <<4, 2>>, <<2, 2, 2>> }, nodes |-> 4, weights |-> {0, 1, 2, 4}, lims |-> 1..12 ]

VARIABLES dist
mcvars == <<m, nodes, open, clo, spent, cur, todo, sat, best, res, dist>>

Ample == 1000

Init ==
    /\ \E x \in GridSpaces(Shapes.grids, {FALSE}) \cup GraphSpaces(Shapes.nodes, Shapes.weights) :
         \E informed \in BOOLEAN, lim \in Shapes.lims \cup {Ample} :
           /\ x.s # x.e
           /\ m = [adj |-> x.adj, costs |-> x.costs, start |-> x.s, goal |-> x.e, h |-> Heuristic(x, informed), lim |-> lim]
           /\ dist = StepsFrom(x, x.s)
    /\ MGInit

Next == MGNext /\ UNCHANGED dist

Spec == Init /\ [][Next]_mcvars /\ WF_mcvars(Next)

\* ------------------------------------------------------------ properties

WithinLimit == Usage(open, nodes) <= Max2(m.lim + 1, 3)
\* No node refers to one that was given back.
Referred    == { x.p : x \in nodes } \cup { x.p : x \in open } \cup {cur.p, best.p, cur.id} \cup { spent[k] : k \in 1..Len(spent) }
NoDangling  == Referred \ {0} \subseteq { x.id : x \in nodes }
OneId       == \A x, y \in nodes : x.id = y.id => x = y
\* Counts are never too low, so that nothing is given back too early.
Counts      == \A x \in nodes : x.n >= Cardinality({ y \in open : y.p = x.id })
SpentOnce   == \A i, j \in 1..Len(spent) : spent[i] = spent[j] => i = j
SpentUnused == \A i \in 1..Len(spent) : Node(spent[i]).n = 0
IsWay(w)    == IsRoute(m.adj, w, m.start, w[Len(w)])
Ways        == /\ \A x \in open : IsWay(Way(x.c, x.p))
               /\ best.c # -1 => best.c = m.goal /\ IsWay(Way(best.c, best.p))
Sound       == best.c # -1 => dist[m.goal] >= 0
Complete    == (res = "end" /\ m.lim = Ample) => (best.c # -1 <=> dist[m.goal] >= 0)
Unsaturated == m.lim = Ample => ~sat /\ spent = spent
Terminates  == <>(res = "end")
=============================================================================
