---------------------------- MODULE MCGraveyard ----------------------------
(***************************************************************************)
(* How the nodes of the graveyard searches (solvers/base/managed_node.hpp) *)
(* go about it: every kept node counts its successors, kept or waiting; a  *)
(* node that turns out to have none takes itself off its parent's count,   *)
(* and a parent whose count reaches zero is released, and so on upwards.   *)
(* Checked: that this keeps precisely the cells that Graveyard calls       *)
(* needed, on every small maze, in any order of expansion.                 *)
(***************************************************************************)
EXTENDS Graveyard, Spaces

CONSTANTS Shapes

Quick    == [ grids |-> { <<3>>, <<2, 2>>, <<3, 2>> }, nodes |-> 3, weights |-> {1} ]
Thorough == [ grids |-> { <<5>>, <<3, 2>>, <<2, 2, 2>> }, nodes |-> 4, weights |-> {1} ]

VARIABLES kept \* a set of [c, p, n]: expanded cell, cell before it, number of successors

mcvars == <<m, open, closed, up, res, kept>>

At(nodes, c) == CHOOSE x \in nodes : x.c = c

\* expunge: c's count goes down by one; if it reaches zero, it is released, and its parent's goes down.
RECURSIVE Release(_, _)
Release(nodes, c) ==
    IF c = -1 THEN nodes
    ELSE LET x == At(nodes, c)
         IN IF x.n = 1 THEN Release(nodes \ {x}, x.p)
            ELSE (nodes \ {x}) \cup { [x EXCEPT !.n = @ - 1] }

Init ==
    /\ \E x \in GridSpaces(Shapes.grids, {FALSE, TRUE}) \cup GraphSpaces(Shapes.nodes, Shapes.weights) :
         \E dup \in BOOLEAN, aimed \in BOOLEAN :
           /\ ~aimed => x.e = x.s \/ ~x.unit
           /\ m = [adj |-> x.adj, costs |-> UnitCosts, start |-> x.s, goal |-> IF aimed THEN x.e ELSE -1, dup |-> dup, h |-> [c \in DOMAIN x.adj |-> 0]]
    /\ GraveInit
    /\ kept = {}

Next ==
    \/ \E x \in open :
         \/ /\ Expand(x)
            /\ kept' = IF Fresh(x) = {} THEN Release(kept, x.p)
                       ELSE kept \cup { [c |-> x.c, p |-> x.p, n |-> Cardinality(Fresh(x))] }
         \/ Drop(x) /\ kept' = Release(kept, x.p)
         \/ Succeed(x) /\ UNCHANGED kept
    \/ Fail /\ UNCHANGED kept

Spec == Init /\ [][Next]_mcvars /\ WF_mcvars(Next)

\* ------------------------------------------------------------ properties

KeepsTheNeeded == { x.c : x \in kept } = Needed(open)
KeptOnce       == \A x, y \in kept : x.c = y.c => x = y
Counts         == \A x \in kept : x.n = Cardinality({ y \in open : y.p = x.c } \cup { y \in kept : y.p = x.c }) /\ x.n > 0
ParentsKept    == \A x \in open \cup kept : x.p = -1 \/ \E y \in kept : y.c = x.p
NothingLeft    == res = "fail" => kept = {}
FarLess        == Cardinality(kept) <= Cardinality(closed)
Terminates     == <>(res # "run")
=============================================================================
