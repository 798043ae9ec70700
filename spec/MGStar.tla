------------------------------- MODULE MGStar -------------------------------
(***************************************************************************)
(* The memory-bounded graveyard search (solvers/mgstar.hpp), step by step. *)
(*                                                                         *)
(* Nodes that have successors are kept (nodes); the others wait (open).    *)
(* A cell that was discovered is closed.  When memory is full, a kept node *)
(* that nothing needs any more (spent) is given back; if there is none,    *)
(* the least promising waiting node is given up, and the cells on its way  *)
(* are opened again; if nothing waits, the expansion is abandoned.         *)
(* Having found a route, the search goes on for a better one from the      *)
(* start.                                                                  *)
(*   m: [adj, costs, start, goal, h, lim]                                  *)
(***************************************************************************)
EXTENDS Maze

VARIABLES
    m,
    nodes,  \* kept: a set of [id, c, g, p, n]  cell, cost so far, parent's id (0: none), number of successors
    open,   \* waiting: a set of [c, g, p]
    clo,    \* closed cells
    spent,  \* ids of the kept nodes that can be given back, last in first out
    cur,    \* what is being expanded, [c, g, p, id]; id is 0 until it is kept.  None: c = -1
    todo,   \* and those of its neighbours that were not looked at yet
    sat,    \* was memory ever full?
    best,   \* the best route's end, [c, g, p], c = -1 if there is none
    res     \* "run", "end"

mgvars == <<m, nodes, open, clo, spent, cur, todo, sat, best, res>>

Nobody == [c |-> -1, g |-> 0, p |-> 0]
Idle   == [c |-> -1, g |-> 0, p |-> 0, id |-> 0]

Node(id) == CHOOSE x \in nodes : x.id = id
F(x) == x.g + m.h[x.c]
Before(x, y) == F(x) < F(y) \/ (F(x) = F(y) /\ x.g < y.g)
First(x) == \A y \in open : ~Before(y, x)
Last(x)  == \A y \in open : ~Before(x, y)

Usage(op, nd) == Cardinality(op) + 1 + Cardinality(nd)

RECURSIVE Ancestors(_)
Ancestors(p) == IF p = 0 THEN {} ELSE {Node(p).c} \cup Ancestors(Node(p).p)

\* The closed cells that stay closed when the way to p is opened again, the start apart.
RECURSIVE Reopen(_, _)
Reopen(p, closed) ==
    IF p = 0 THEN closed
    ELSE LET x == Node(p)
         IN IF x.p = 0 \/ x.c \notin closed THEN closed ELSE Reopen(x.p, closed \ {x.c})

MGInit == /\ nodes = {} /\ clo = {m.start} /\ spent = <<>>
          /\ open = { [c |-> m.start, g |-> 0, p |-> 0] }
          /\ cur = Idle /\ todo = {} /\ sat = FALSE /\ best = Nobody /\ res = "run"

Improves(x) == best.c = -1 \/ x.g < best.g

\* The next in line is not the goal.
Pick(x) == /\ res = "run" /\ cur = Idle
           /\ First(x) /\ x.c # m.goal
           /\ open' = open \ {x}
           /\ cur' = [c |-> x.c, g |-> x.g, p |-> x.p, id |-> 0]
           /\ todo' = IF Improves(x) THEN m.adj[x.c] ELSE {}
           /\ UNCHANGED <<m, nodes, clo, spent, sat, best, res>>

\* The next in line is the goal.
Arrive(x) == /\ res = "run" /\ cur = Idle
             /\ First(x) /\ x.c = m.goal
             /\ LET rest == open \ {x}
                IN IF Improves(x)
                   THEN /\ best' = x
                        /\ open' = IF Usage(rest, nodes) >= m.lim /\ rest # {} THEN {}
                                   ELSE rest \cup { [c |-> m.start, g |-> 0, p |-> 0] }
                   ELSE open' = rest /\ UNCHANGED best
             /\ UNCHANGED <<m, nodes, clo, spent, cur, todo, sat, res>>

\* Adds d to what waits, after room was made.
Add(d, op, nd, cl) ==
    LET kept == cur.id # 0
        id   == IF kept THEN cur.id ELSE CHOOSE i \in 1..(Cardinality(nd) + 1) : \A x \in nd : x.id # i
        g    == cur.g + StepCost(m.costs, cur.c, d)
    IN /\ open' = op \cup { [c |-> d, g |-> g, p |-> id] }
       /\ clo' = cl \cup {d}
       /\ nodes' = IF kept THEN { IF x.id = id THEN [x EXCEPT !.n = @ + 1] ELSE x : x \in nd }
                   ELSE nd \cup { [id |-> id, c |-> cur.c, g |-> cur.g, p |-> cur.p, n |-> 1] }
       /\ cur' = [cur EXCEPT !.id = id]

Look(d) ==
    /\ res = "run" /\ cur # Idle /\ d \in todo
    /\ UNCHANGED <<m, best, res>>
    /\ IF d \in clo \/ (sat /\ d \in Ancestors(cur.p))
       THEN todo' = todo \ {d} /\ UNCHANGED <<nodes, open, clo, spent, cur, sat>>
       ELSE IF Usage(open, nodes) < m.lim
       THEN Add(d, open, nodes, clo) /\ todo' = todo \ {d} /\ UNCHANGED <<spent, sat>>
       ELSE /\ sat' = TRUE
            /\ IF spent # <<>>
               THEN LET gone == spent[Len(spent)]
                    IN /\ Add(d, open, { x \in nodes : x.id # gone }, clo)
                       /\ spent' = SubSeq(spent, 1, Len(spent) - 1)
                       /\ todo' = todo \ {d}
               ELSE IF open # {}
               THEN \E w \in open :
                      /\ Last(w)
                      /\ Add(d, open \ {w}, nodes, Reopen(w.p, clo) \ {w.c})
                      /\ todo' = todo \ {d}
                      /\ UNCHANGED spent
               ELSE /\ clo' = Reopen(cur.p, clo)
                    /\ todo' = {}
                    /\ UNCHANGED <<nodes, open, spent, cur>>

\* What was expanded in vain counts no longer as a successor.
Done == /\ res = "run" /\ cur # Idle /\ todo = {}
        /\ IF cur.id = 0 /\ cur.p # 0
           THEN /\ nodes' = { IF x.id = cur.p THEN [x EXCEPT !.n = @ - 1] ELSE x : x \in nodes }
                /\ spent' = IF Node(cur.p).n = 1 THEN Append(spent, cur.p) ELSE spent
           ELSE UNCHANGED <<nodes, spent>>
        /\ cur' = Idle
        /\ UNCHANGED <<m, open, clo, todo, sat, best, res>>

End == /\ res = "run" /\ cur = Idle /\ open = {}
       /\ res' = "end"
       /\ UNCHANGED <<m, nodes, open, clo, spent, cur, todo, sat, best>>

MGNext == (\E x \in open : Pick(x) \/ Arrive(x)) \/ (\E d \in todo : Look(d)) \/ Done \/ End

RECURSIVE Way(_, _)
Way(c, p) == IF p = 0 THEN <<c>> ELSE Append(Way(Node(p).c, Node(p).p), c)
=============================================================================
