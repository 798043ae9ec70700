------------------------------ MODULE SMAStar ------------------------------
(***************************************************************************)
(* The simplified memory-bounded searches (solvers/smastar.hpp, and        *)
(* solvers/osmastar.hpp, which goes on for better routes), step by step.   *)
(*                                                                         *)
(* known says of every cell in memory what is known about it; open is what *)
(* waits to be expanded.  When memory is full, the least promising of what *)
(* waits is forgotten, and its parent's estimate rises to the least of     *)
(* what is known about its neighbours.                                     *)
(*   m: [adj, costs, start, goal, h, lim, on (go on after the first        *)
(*      route?)]                                                           *)
(***************************************************************************)
EXTENDS Maze

VARIABLES
    m,
    known, \* a set of [c, g, f, p]: cell, cost so far, estimate, parent (-1: none), one for each cell in memory
    open,  \* a set of such
    cur,   \* what is being expanded, c = -1: nothing
    todo,  \* its neighbours that were not looked at yet
    idle,  \* did the expansion lead nowhere so far?
    lead,  \* cost of the best route found
    res    \* "run", "found", "end"

smvars == <<m, known, open, cur, todo, idle, lead, res>>

Top == 1000000 \* more than anything costs
Nobody == [c |-> -1, g |-> 0, f |-> 0, p |-> -1]

Before(x, y) == x.f < y.f \/ (x.f = y.f /\ x.g < y.g)
First(x) == \A y \in open : ~Before(y, x)
Last(x)  == \A y \in open : ~Before(x, y)

Is(c, k)  == \E x \in k : x.c = c
At(c, k)  == CHOOSE x \in k : x.c = c
Put(x, k) == { y \in k : y.c # x.c } \cup {x}

Usage(k, o) == Cardinality(k) + Cardinality(o)

\* The parent p of something that is forgotten, or that leads nowhere.
Backup(p, k) ==
    IF p = -1 \/ ~Is(p, k) THEN k
    ELSE LET x    == At(p, k)
             fs   == { y.f : y \in { z \in k : z.c \in m.adj[p] } } \cup {Top}
             least == CHOOSE f \in fs : \A g \in fs : f <= g
         IN IF least > x.f THEN Put([x EXCEPT !.f = least], k) ELSE k

SMInit == LET x == [c |-> m.start, g |-> 0, f |-> m.h[m.start], p |-> -1]
          IN /\ known = {x} /\ open = {x}
             /\ cur = Nobody /\ todo = {} /\ idle = TRUE /\ lead = Top /\ res = "run"

Pick(x) == /\ res = "run" /\ cur = Nobody
           /\ First(x) /\ x.c # m.goal
           /\ open' = open \ {x}
           /\ cur' = x
           /\ todo' = IF x.f # Top /\ (m.on => x.g < lead) THEN m.adj[x.c] ELSE {}
           /\ idle' = TRUE
           /\ UNCHANGED <<m, known, lead, res>>

Arrive(x) == /\ res = "run" /\ cur = Nobody
             /\ First(x) /\ x.c = m.goal
             /\ open' = open \ {x}
             /\ IF m.on THEN lead' = Min2(x.g, lead) /\ UNCHANGED <<res, cur>>
                ELSE res' = "found" /\ cur' = x /\ UNCHANGED lead
             /\ UNCHANGED <<m, known, todo, idle>>

New(d) == LET g == cur.g + StepCost(m.costs, cur.c, d)
          IN [c |-> d, g |-> g, f |-> g + m.h[d], p |-> cur.c]

\* d, once it is known how much room there is.
Enter(d, k, o) ==
    IF Usage(k, o) < m.lim
    THEN known' = Put(New(d), k) /\ open' = o \cup {New(d)} /\ todo' = todo \ {d}
    ELSE known' = k /\ open' = o /\ todo' = {}

Look(d) ==
    /\ res = "run" /\ cur # Nobody /\ d \in todo
    /\ UNCHANGED <<m, cur, lead, res>>
    /\ IF Is(d, known)
       THEN LET old == At(d, known)
            IN /\ todo' = todo \ {d}
               /\ IF old.f # Top /\ New(d).g < old.g
                  THEN /\ idle' = FALSE
                       /\ known' = Put(New(d), known)
                       /\ LET same == { x \in open : x.c = d /\ x.f = old.f /\ x.g = old.g }
                          IN IF same = {} THEN open' = open \cup {New(d)}
                             ELSE \E x \in same : open' = (open \ {x}) \cup {New(d)}
                  ELSE UNCHANGED <<known, open, idle>>
       ELSE /\ idle' = FALSE
            /\ IF open # {} /\ Usage(known, open) >= m.lim - 1
               THEN \E w \in open :
                      /\ Last(w)
                      /\ LET k == Backup(w.p, known)
                         IN Enter(d, { x \in k : x.c # w.c }, open \ {w})
               ELSE Enter(d, known, open)

Done == /\ res = "run" /\ cur # Nobody /\ todo = {}
        /\ known' = IF idle THEN Put([cur EXCEPT !.f = Top], Backup(cur.p, known)) ELSE known
        /\ cur' = Nobody
        /\ UNCHANGED <<m, open, todo, idle, lead, res>>

End == /\ res = "run" /\ cur = Nobody /\ open = {}
       /\ res' = "end"
       /\ UNCHANGED <<m, known, open, cur, todo, idle, lead>>

SMNext == (\E x \in open : Pick(x) \/ Arrive(x)) \/ (\E d \in todo : Look(d)) \/ Done \/ End

\* The route to x, as far as its cells are known: <<-1, ...>> if one is not, or if it leads round in a circle.
RECURSIVE Way(_, _)
Way(x, fuel) == IF x.p = -1 THEN <<x.c>>
                ELSE IF fuel = 0 \/ ~Is(x.p, known) THEN <<-1, x.c>>
                ELSE Append(Way(At(x.p, known), fuel - 1), x.c)
=============================================================================
