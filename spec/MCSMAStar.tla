----------------------------- MODULE MCSMAStar -----------------------------
(***************************************************************************)
(* SMAStar on every wall pattern of small shapes and every small weighted  *)
(* graph, for every limit, in every order of neighbours and of ties.       *)
(***************************************************************************)
EXTENDS SMAStar, Spaces

CONSTANTS Shapes

Quick    == [ grids |-> { <<3>>, <<2, 2>>, <<3, 2>> }, nodes |-> 4, weights |-> {0, 1, 3}, lims |-> 2..9 ]
Thorough == [ grids |-> { <<5>>, <<4, 2>>, <<2, 2, 2>> }, nodes |-> 4, weights |-> {0, 1, 2, 4}, lims |-> 2..14 ]

VARIABLES dist
mcvars == <<m, known, open, cur, todo, idle, lead, res, dist>>

Ample == 1000

Init ==
    /\ \E x \in GridSpaces(Shapes.grids, {FALSE}) \cup GraphSpaces(Shapes.nodes, Shapes.weights) :
         \E informed \in BOOLEAN, lim \in Shapes.lims \cup {Ample}, on \in BOOLEAN :
           /\ x.s # x.e
           /\ m = [adj |-> x.adj, costs |-> x.costs, start |-> x.s, goal |-> x.e, h |-> Heuristic(x, informed), lim |-> lim, on |-> on]
           /\ dist = StepsFrom(x, x.s)
    /\ SMInit

Next == SMNext /\ UNCHANGED dist

Spec == Init /\ [][Next]_mcvars /\ WF_mcvars(Next)

\* ------------------------------------------------------------ properties

Answer == IF res = "found" THEN Way(cur, 20) ELSE IF res = "end" /\ m.on /\ Is(m.goal, known) THEN Way(At(m.goal, known), 20) ELSE <<>>

WithinLimit == Usage(known, open) <= m.lim + 1
OnceKnown   == \A x, y \in known : x.c = y.c => x = y
RightAnswer == Answer # <<>> => IsRoute(m.adj, Answer, m.start, m.goal)
Complete    == (m.lim = Ample /\ (res = "found" \/ res = "end")) => (Answer # <<>> <=> dist[m.goal] >= 0)
Terminates  == <>(res # "run")
=============================================================================
