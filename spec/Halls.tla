-------------------------------- MODULE Halls --------------------------------
(***************************************************************************)
(* Large mazes in closed form: a box of open cells, crossed by walls, each *)
(* of which stands on one position of the first axis and has one door, or  *)
(* none.  What is reachable, and how far it is, needs no search here, so   *)
(* that mazes of any size can be judged.                                   *)
(*                                                                         *)
(* Record: kind "h", sizes, walls: a sequence, ascending and at least two  *)
(* apart, of [at |-> position, door |-> <<index>> or <<>>]; s and e, which *)
(* stand in no wall.                                                       *)
(***************************************************************************)
EXTENDS Maze

HallOpen(r, c) == \* c: an index
    /\ c >= 0 /\ c < Prod(r.sizes)
    /\ \A k \in 1..Len(r.walls) : c % r.sizes[1] = r.walls[k].at => r.walls[k].door = <<c>>

\* The walls between two cells, in the order in which they are passed.
Between(r, a, b) ==
    LET x == a % r.sizes[1]
        y == b % r.sizes[1]
        up   == SelectSeq(r.walls, LAMBDA w : x < w.at /\ w.at < y)
        down == SelectSeq(r.walls, LAMBDA w : y < w.at /\ w.at < x)
    IN IF x < y THEN up ELSE Reverse(down)

RECURSIVE MaxTo(_, _)
MaxTo(f, k) == IF k = 0 THEN 0 ELSE Max2(f[k], MaxTo(f, k - 1))

EmptyDist(sz, a, b, oct) ==
    LET ca == Coord(a, sz)
        cb == Coord(b, sz)
        d  == [ k \in 1..Len(sz) |-> Abs(ca[k] - cb[k]) ]
    IN IF oct THEN MaxTo(d, Len(sz)) ELSE SumTo(d, Len(sz))

\* By way of every door in between.
HallDist(r, oct) ==
    LET ws == Between(r, r.s, r.e)
        p  == <<r.s>> \o [ k \in 1..Len(ws) |-> ws[k].door[1] ] \o <<r.e>>
    IN IF \E k \in 1..Len(ws) : ws[k].door = <<>> THEN -1
       ELSE SumTo([ k \in 1..(Len(p) - 1) |-> EmptyDist(r.sizes, p[k], p[k + 1], oct) ], Len(p) - 1)

HallStep(r, a, b, oct) == a # b /\ EmptyDist(r.sizes, a, b, TRUE) = 1 /\ (oct \/ EmptyDist(r.sizes, a, b, FALSE) = 1)

HallRoute(r, w, oct) ==
    /\ Len(w) > 0
    /\ w[1] = r.s /\ w[Len(w)] = r.e
    /\ \A k \in 1..Len(w) : HallOpen(r, w[k])
    /\ \A k \in 1..(Len(w) - 1) : HallStep(r, w[k], w[k + 1], oct)
    /\ Cardinality({ w[k] : k \in 1..Len(w) }) = Len(w)
=============================================================================
