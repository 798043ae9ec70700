---------------------------- MODULE SearchRecord ----------------------------
(***************************************************************************)
(* Recorded searches, as harness/spy.cc writes them (one JSON record each):*)
(*   kind "c" a grid: sizes, blocked (cells), oct                          *)
(*        "g" a graph: sizes, edges (<<u, v, w>>)                          *)
(*   n, s, e (cells), hid (0 none, 1 manhattan, 2 chebyshev), weight       *)
(*   log     the cells whose neighbours were asked for, in order           *)
(*   found   was a route returned?        trunc  was the log cut off?      *)
(***************************************************************************)
EXTENDS Maze, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)

Dist(a, b, sz, hid) ==
    LET ca == Coord(a, sz)
        cb == Coord(b, sz)
        f  == [k \in 1..Len(sz) |-> Abs(ca[k] - cb[k])]
    IN CASE hid = 0 -> 0
         [] hid = 1 -> SumTo(f, Len(sz))
         [] OTHER   -> LET s == { f[k] : k \in 1..Len(sz) } IN CHOOSE x \in s : \A y \in s : y <= x

RecEdges(r) == { <<r.edges[k][1], r.edges[k][2], r.edges[k][3]>> : k \in 1..Len(r.edges) }

Free(r) == IF r.kind = "c" THEN (0..(r.n - 1)) \ { r.blocked[k] : k \in 1..Len(r.blocked) }
           ELSE { x[1] : x \in RecEdges(r) } \cup { x[2] : x \in RecEdges(r) }

RecAdj(r) == IF r.kind = "c" THEN GridAdj(r.sizes, Free(r), r.oct) ELSE GraphAdj(r.n, RecEdges(r))

RecCosts(r) == IF r.kind = "c" THEN UnitCosts ELSE GraphCosts(r.n, RecEdges(r))

\* The search may run either way; the first cell that it asks about says which.
First(r) == IF r.log = <<>> THEN r.s ELSE r.log[1]
Other(r) == IF First(r) = r.s THEN r.e ELSE r.s

RecHeur(r) == [c \in 0..(r.n - 1) |-> r.weight * Dist(c, Other(r), r.sizes, r.hid)]

\* Nothing is to be asked if an end is blocked or both are the same.
Degenerate(r) == r.s \notin Free(r) \/ r.e \notin Free(r) \/ r.s = r.e
=============================================================================
