------------------------------- MODULE Search -------------------------------
(***************************************************************************)
(* The one-pass searches of CHDR as a state machine: bfs, gbfs, dfs, gdfs, *)
(* best_first, gbest_first, astar, gstar, dijkstra (and, with an arbitrary *)
(* order, flood and mgstar).  A step expands one cell, that is, asks the   *)
(* maze for its neighbours and remembers those not seen before.            *)
(*                                                                         *)
(* m.pol says which of the remembered cells may be expanded next:          *)
(*   "fifo"  one of those discovered by the oldest expansion               *)
(*   "lifo"  one of those discovered by the newest expansion               *)
(*   "minh"  one of least heuristic value                                  *)
(*   "minf"  one of least cost so far plus heuristic value; routes to      *)
(*           remembered cells may still improve                            *)
(*   "any"   any                                                           *)
(***************************************************************************)
EXTENDS Maze

VARIABLES
    m,      \* [adj, costs, start, goal (-1: none), pol, h]; never changes
    open,   \* remembered cells: a set of [c, g, b]  cell, cost so far, expansion that discovered it
    closed, \* expanded cells
    par,    \* <<cell, parent>> of every remembered or expanded cell but the start
    tick,   \* number of expansions
    res     \* "run", "found", "fail"

svars == <<m, open, closed, par, tick, res>>

Seen == closed \cup { x.c : x \in open }

Key(x) == CASE m.pol = "fifo" -> x.b
            [] m.pol = "lifo" -> -x.b
            [] m.pol = "minh" -> m.h[x.c]
            [] m.pol = "minf" -> x.g + m.h[x.c]
            [] OTHER -> 0

Best(x) == \A y \in open : Key(x) <= Key(y)

SearchInit == /\ open = { [c |-> m.start, g |-> 0, b |-> 0] }
              /\ closed = {}
              /\ par = {}
              /\ tick = 0
              /\ res = "run"

\* Expansion of x: its unseen neighbours are remembered; with "minf" also shorter routes to remembered ones.
Expand(x) ==
    LET cost(d) == x.g + StepCost(m.costs, x.c, d)
        fresh  == m.adj[x.c] \ (closed \cup { y.c : y \in open })
        better == IF m.pol = "minf" THEN { y \in open : y.c \in m.adj[x.c] /\ y.g > cost(y.c) } ELSE {}
        new    == fresh \cup { y.c : y \in better }
    IN /\ res = "run"
       /\ x.c # m.goal
       /\ Best(x)
       /\ open' = ((open \ {x}) \ better) \cup { [c |-> d, g |-> cost(d), b |-> tick + 1] : d \in new }
       /\ closed' = closed \cup {x.c}
       /\ par' = { p \in par : p[1] \notin new } \cup { <<d, x.c>> : d \in new }
       /\ tick' = tick + 1
       /\ UNCHANGED <<m, res>>

\* The goal is next in line.
Succeed == /\ res = "run"
           /\ \E x \in open : x.c = m.goal /\ Best(x)
           /\ res' = "found"
           /\ UNCHANGED <<m, open, closed, par, tick>>

\* Nothing is left to expand.
Fail == /\ res = "run"
        /\ open = {}
        /\ res' = "fail"
        /\ UNCHANGED <<m, open, closed, par, tick>>

SearchNext == (\E x \in open : Expand(x)) \/ Succeed \/ Fail

\* The route that the parents spell out, from the start to c.
RECURSIVE RouteTo(_, _)
RouteTo(c, fuel) ==
    IF c = m.start \/ fuel = 0 THEN <<c>>
    ELSE LET p == CHOOSE p \in par : p[1] = c IN Append(RouteTo(p[2], fuel - 1), c)
=============================================================================
