------------------------------- MODULE Fringe -------------------------------
(***************************************************************************)
(* Fringe search: passes over a list of cells.  A cell whose neighbours    *)
(* all lie within the threshold leaves the list, its neighbours enter the  *)
(* next list; a cell with neighbours beyond the threshold is kept.  When a *)
(* pass visits nothing new, the threshold rises to the least estimate      *)
(* that exceeded it.                                                       *)
(***************************************************************************)
EXTENDS Maze

VARIABLES
    m,     \* [adj, costs, start, goal, h]; never changes
    limit, \* the threshold
    now,   \* what this pass has still to look at: a set of [c, g]
    next,  \* the list of the next pass
    vis,   \* cells that have been on a list
    over,  \* least estimate beyond the threshold met in this pass
    grew,  \* did this pass visit anything new?
    res

fvars == <<m, limit, now, next, vis, over, grew, res>>

FringeInit == /\ limit = m.h[m.start]
              /\ now = { [c |-> m.start, g |-> 0] }
              /\ next = {}
              /\ vis = {m.start}
              /\ over = INF
              /\ grew = FALSE
              /\ res = "run"

Visit(x) ==
    LET fresh == m.adj[x.c] \ vis
        g(c)  == x.g + StepCost(m.costs, x.c, c)
        f(c)  == g(c) + m.h[c]
        in    == { c \in fresh : f(c) <= limit }
        out   == fresh \ in
        es    == { f(c) : c \in out } \cup {over}
    IN /\ res = "run" /\ x \in now /\ x.c # m.goal
       /\ now' = now \ {x}
       /\ next' = next \cup { [c |-> c, g |-> g(c)] : c \in in } \cup (IF out # {} THEN {x} ELSE {})
       /\ vis' = vis \cup in
       /\ over' = (CHOOSE a \in es : \A b \in es : a <= b)
       /\ grew' = (grew \/ in # {})
       /\ UNCHANGED <<m, limit, res>>

NextPass == /\ res = "run" /\ now = {} /\ next # {}
            /\ now' = next /\ next' = {}
            /\ limit' = (IF grew THEN limit ELSE over)
            /\ over' = INF /\ grew' = FALSE
            /\ UNCHANGED <<m, vis, res>>

Succeed == /\ res = "run" /\ \E x \in now : x.c = m.goal
           /\ res' = "found"
           /\ UNCHANGED <<m, limit, now, next, vis, over, grew>>

Fail == /\ res = "run" /\ now = {} /\ next = {}
        /\ res' = "fail"
        /\ UNCHANGED <<m, limit, now, next, vis, over, grew>>
=============================================================================
