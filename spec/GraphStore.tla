----------------------------- MODULE GraphStore -----------------------------
(***************************************************************************)
(* What a graph owes its user (G03), and what may become of it when it is  *)
(* compacted (G04).  A graph is a function from its nodes to the bag of    *)
(* their edges <<to, weight>> (a function from edges to how many there     *)
(* are).  A client has graphs in slots; one that was moved from is gone    *)
(* until it is cleared or assigned to.                                     *)
(***************************************************************************)
EXTENDS Maze

VARIABLES box, gone
gvars == <<box, gone>>

RangeOf(s) == { s[k] : k \in 1..Len(s) }
BagOf(s) == [e \in RangeOf(s) |-> Cardinality({ k \in 1..Len(s) : s[k] = e })]
Nothing == [x \in {} |-> 0]

RECURSIVE SumOf(_, _)
SumOf(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOf(f, S \ {x})
Degree(g, u) == SumOf(g[u], DOMAIN g[u])

\* ---------------------------------------------------------------- operations

WithNode(g, u) == IF u \in DOMAIN g THEN g ELSE (u :> Nothing) @@ g
WithEdge(g, u, e) ==
    LET b == IF u \in DOMAIN g THEN g[u] ELSE Nothing
    IN (u :> ((e :> (IF e \in DOMAIN b THEN b[e] ELSE 0) + 1) @@ b)) @@ g
\* All edges equal to e are removed; without edges, the node is, too.
WithoutEdge(g, u, e) ==
    IF u \notin DOMAIN g THEN g
    ELSE LET rest == [x \in DOMAIN g[u] \ {e} |-> g[u][x]]
         IN IF DOMAIN rest = {} THEN [v \in DOMAIN g \ {u} |-> g[v]] ELSE [g EXCEPT ![u] = rest]

RECURSIVE WithEdges(_, _, _)
WithEdges(g, u, es) == IF es = <<>> THEN g ELSE WithEdges(WithEdge(g, u, Head(es)), u, Tail(es))
RECURSIVE FromLists(_, _, _)
FromLists(g, u, lists) == IF lists = <<>> THEN g ELSE FromLists(WithEdges(WithNode(g, u), u, Head(lists)), u + 1, Tail(lists))

Put(s, g) == box' = (s :> g) @@ box /\ gone' = gone \ {s}
InUse == DOMAIN box \ gone

\* ---------------------------------------------------------------- compaction

Symmetric(g) ==
    \A u \in DOMAIN g : \A e \in DOMAIN g[u] :
        /\ e[1] \in DOMAIN g
        /\ <<u, e[2]>> \in DOMAIN g[e[1]]
        /\ g[e[1]][<<u, e[2]>>] = g[u][e]

\* Least cost from u to every node of a symmetric graph.
RECURSIVE Settle(_, _)
Settle(g, d) ==
    LET d2 == TLCEval([ v \in DOMAIN g |->
                 LET cand == { d[e[1]] + e[2] : e \in { x \in DOMAIN g[v] : d[x[1]] < INF } } \cup { d[v] }
                 IN CHOOSE m \in cand : \A y \in cand : m <= y ])
    IN IF d2 = d THEN d ELSE Settle(g, d2)
DistancesFrom(g, u) == Settle(g, [ v \in DOMAIN g |-> IF v = u THEN 0 ELSE INF ])

\* A node with two ways on: what is compacted away, where that is possible.
InTransit(g, u) == Degree(g, u) = 2 /\ \A e \in DOMAIN g[u] : e[1] # u

Compacted(h) == Cardinality(DOMAIN h) > 2 => \A u \in DOMAIN h : ~InTransit(h, u)

SameDistances(g, h) ==
    \A u \in DOMAIN h : LET dg == TLCEval(DistancesFrom(g, u))
                            dh == TLCEval(DistancesFrom(h, u))
                        IN \A v \in DOMAIN h : dg[v] = dh[v]

\* h is what pruning may make of g.
IsPruned(g, h) ==
    /\ DOMAIN h \subseteq DOMAIN g
    /\ Symmetric(h)
    /\ \A u \in DOMAIN g : Degree(g, u) <= 1 => u \in DOMAIN h
    /\ Compacted(h)
    /\ SameDistances(g, h)
=============================================================================
