----------------------------- MODULE Graveyard -----------------------------
(***************************************************************************)
(* What the graveyard-optimised searches keep (X03): gbfs, gdfs,           *)
(* gbest_first and gstar.  Such a search remembers, for every cell that    *)
(* waits to be expanded, the way that led to it, and nothing else: once    *)
(* nothing that waits was reached by way of an expanded cell, that cell is *)
(* forgotten, and so are the cells before it.                              *)
(*                                                                         *)
(* A cell is expanded once.  With m.dup (gstar) it can wait several times, *)
(* as it was discovered by several expanded cells; those left over after   *)
(* its expansion are dropped when it is their turn.                        *)
(*   m: [adj, costs, start, goal (-1: none), dup, h]                       *)
(***************************************************************************)
EXTENDS Maze

VARIABLES
    m,
    open,   \* a set of [c, p, g]: cell, the cell which discovered it (-1: none), cost so far
    closed, \* expanded cells
    up,     \* the cell by way of which an expanded cell was reached, as pairs <<cell, before>>
    res     \* "run", "found", "fail"

gvars == <<m, open, closed, up, res>>

Before(c) == (CHOOSE p \in up : p[1] = c)[2]

RECURSIVE Chain(_)
Chain(c) == IF c = -1 THEN {} ELSE {c} \cup Chain(Before(c))

\* The expanded cells on the ways to the cells that wait.
Needed(waiting) == UNION { Chain(x.p) : x \in waiting }

Key(x) == x.g + m.h[x.c]

GraveInit == /\ open = { [c |-> m.start, p |-> -1, g |-> 0] }
             /\ closed = {}
             /\ up = {}
             /\ res = "run"

Fresh(x) == m.adj[x.c] \ (closed \cup {x.c} \cup (IF m.dup THEN {} ELSE { y.c : y \in open }))

Expand(x) ==
    /\ res = "run"
    /\ x.c # m.goal
    /\ x.c \notin closed
    /\ closed' = closed \cup {x.c}
    /\ up' = up \cup { <<x.c, x.p>> }
    /\ open' = (open \ {x}) \cup { [c |-> d, p |-> x.c, g |-> x.g + StepCost(m.costs, x.c, d)] : d \in Fresh(x) }
    /\ UNCHANGED <<m, res>>

Stale(x) == x.c \in closed

Drop(x) == /\ res = "run"
           /\ Stale(x)
           /\ open' = open \ {x}
           /\ UNCHANGED <<m, closed, up, res>>

Succeed(x) == /\ res = "run"
              /\ x.c = m.goal
              /\ res' = "found"
              /\ UNCHANGED <<m, open, closed, up>>

Fail == /\ res = "run"
        /\ open = {}
        /\ res' = "fail"
        /\ UNCHANGED <<m, open, closed, up>>

GraveNext == (\E x \in open : Expand(x) \/ Drop(x) \/ Succeed(x)) \/ Fail
=============================================================================
