----------------------------- MODULE MCCompaction -----------------------------
(***************************************************************************)
(* How a compact graph is made (G04): workers follow corridors, each in    *)
(* its part of the grid and at its own pace; what they found is put        *)
(* together in order; then nodes in transit are removed one by one, in any *)
(* order.  Checked by TLC from every wall pattern of the small grids and   *)
(* from every small weighted multigraph.                                   *)
(***************************************************************************)
EXTENDS GraphStore

CONSTANT Shapes

\* Grids by their sides; a plain number n stands for all multigraphs of n nodes with weights 1 and 2.
Quick    == [ grids |-> { <<2, 2>>, <<4, 1>>, <<3, 2>>, <<3, 3>> }, workers |-> 2, nodes |-> 3 ]
Thorough == [ grids |-> { <<2, 2>>, <<6, 1>>, <<3, 3>>, <<4, 3>>, <<2, 2, 2>>, <<5, 2>> }, workers |-> 3, nodes |-> 4 ]

VARIABLES sz, open, phase, at, found, g0

vars == <<box, gone, sz, open, phase, at, found, g0>>

Adj == GridAdj(sz, open, FALSE)
N == Prod(sz)
Chunk == (N + Shapes.workers - 1) \div Shapes.workers
First(t) == Min2((t - 1) * Chunk, N)
Last(t)  == Min2(First(t) + Chunk, N) - 1

Empty == [x \in {} |-> Nothing]
EdgesOver(n) == { <<u, v, w>> \in (1..n) \X (1..n) \X {1, 2} : u < v }
GraphOf(n, es) == [ u \in 1..n |-> [ e \in { <<x[2], x[3]>> : x \in { y \in es : y[1] = u } } \cup { <<x[1], x[3]>> : x \in { y \in es : y[2] = u } } |-> 1 ] ]

Init == /\ gone = {}
        /\ \/ /\ sz \in Shapes.grids
              /\ open \in SUBSET (0..(Prod(sz) - 1))
              /\ phase = "walk"
              /\ at = [ t \in 1..Shapes.workers |-> First(t) ]
              /\ found = [ t \in 1..Shapes.workers |-> <<>> ]
              /\ box = Empty /\ g0 = Empty
           \/ /\ sz = <<>> /\ open = {}
              /\ phase = "prune" /\ at = <<>> /\ found = <<>>
              /\ \E es \in SUBSET EdgesOver(Shapes.nodes) : g0 = GraphOf(Shapes.nodes, es)
              /\ box = g0

\* Follows the corridor that leaves u by v: <<end, length>>.
RECURSIVE Follow(_, _, _, _, _)
Follow(adj, u, prev, cur, len) ==
    IF cur = u \/ Cardinality(adj[cur]) # 2 THEN <<cur, len>>
    ELSE Follow(adj, u, cur, CHOOSE x \in adj[cur] : x # prev, len + 1)

SeqOf(S) == LET RECURSIVE Ord(_)
                Ord(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : \A y \in T : x <= y IN <<x>> \o Ord(T \ {x})
            IN Ord(S)

\* What a worker finds at cell u.
Finds(adj, u) ==
    IF u \notin open \/ Cardinality(adj[u]) = 2 THEN <<>>
    ELSE LET ends == [ k \in 1..Cardinality(adj[u]) |-> Follow(adj, u, u, SeqOf(adj[u])[k], 1) ]
             kept == SelectSeq(ends, LAMBDA e : e[1] # u)
         IN [ k \in 1..Len(kept) |-> <<u, kept[k]>> ]

Walk(t) ==
    /\ phase = "walk" /\ at[t] <= Last(t)
    /\ found' = [found EXCEPT ![t] = @ \o Finds(Adj, at[t])]
    /\ at' = [at EXCEPT ![t] = @ + 1]
    /\ UNCHANGED <<box, gone, sz, open, phase, g0>>

RECURSIVE Collect(_, _)
Collect(g, fs) == IF fs = <<>> THEN g ELSE Collect(WithEdge(g, Head(fs)[1], Head(fs)[2]), Tail(fs))

RECURSIVE Flat(_, _)
Flat(f, t) == IF t = 0 THEN <<>> ELSE Flat(f, t - 1) \o f[t]

Join ==
    /\ phase = "walk" /\ \A t \in DOMAIN at : at[t] > Last(t)
    /\ box' = Collect(Empty, Flat(found, Len(found)))
    /\ phase' = "prune"
    /\ found' = <<>> /\ at' = <<>> /\ g0' = box'
    /\ UNCHANGED <<gone, sz, open>>

Less1(b, e) == IF b[e] = 1 THEN [x \in DOMAIN b \ {e} |-> b[x]] ELSE [b EXCEPT ![e] = @ - 1]
AddOnce(b, e) == IF e \in DOMAIN b THEN b ELSE (e :> 1) @@ b

Removed(g, u) == [ v \in DOMAIN g \ {u} |-> g[v] ]

Prune(u) ==
    /\ phase = "prune" /\ Cardinality(DOMAIN box) > 2 /\ InTransit(box, u)
    /\ box' = IF Cardinality({ e[1] : e \in DOMAIN box[u] }) = 1
              THEN LET a == (CHOOSE e \in DOMAIN box[u] : TRUE)[1]
                   IN Removed([box EXCEPT ![a] = [ x \in { y \in DOMAIN box[a] : y[1] # u } |-> box[a][x] ]], u)
              ELSE LET e1 == CHOOSE e \in DOMAIN box[u] : TRUE
                       e2 == CHOOSE e \in DOMAIN box[u] : e # e1
                       w  == e1[2] + e2[2]
                   IN Removed([box EXCEPT ![e1[1]] = AddOnce(Less1(@, <<u, e1[2]>>), <<e2[1], w>>),
                                          ![e2[1]] = AddOnce(Less1(@, <<u, e2[2]>>), <<e1[1], w>>)], u)
    /\ UNCHANGED <<gone, sz, open, phase, at, found, g0>>

Next == \/ \E t \in DOMAIN at : Walk(t)
        \/ Join
        \/ \E u \in DOMAIN box : Prune(u)

Spec == Init /\ [][Next]_vars

\* ---------------------------------------------------------------- what holds

TypeOK == \A u \in DOMAIN box : \A e \in DOMAIN box[u] : box[u][e] \in 1..9 /\ e[2] \in 1..99

\* The joined graph is the same however the workers were scheduled, and keeps the distances of the grid.
BuiltRight ==
    phase = "prune" /\ sz # <<>> /\ box = g0 =>
        LET adj == Adj IN
        /\ g0 = Collect(Empty, LET RECURSIVE All(_)
                                   All(k) == IF k = N THEN <<>> ELSE Finds(adj, k) \o All(k + 1)
                               IN All(0))
        /\ Symmetric(g0)
        /\ DOMAIN g0 \subseteq open
        /\ \A u \in DOMAIN g0 : LET d == TLCEval(DistancesFrom(g0, u)) IN
             \A v \in DOMAIN g0 : d[v] = (LET x == StepDist(adj, u, v) IN IF x < 0 THEN INF ELSE x)

\* Every step of pruning keeps what IsPruned asks for.
StaysRight ==
    phase = "prune" => /\ DOMAIN box \subseteq DOMAIN g0
                       /\ Symmetric(box)
                       /\ \A u \in DOMAIN g0 : Degree(g0, u) <= 1 => u \in DOMAIN box
                       /\ SameDistances(g0, box)

EndsCompacted == phase = "prune" /\ ~(\E u \in DOMAIN box : Cardinality(DOMAIN box) > 2 /\ InTransit(box, u)) => Compacted(box)
=============================================================================
