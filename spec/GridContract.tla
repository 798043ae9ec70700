---------------------------- MODULE GridContract ----------------------------
(***************************************************************************)
(* Judges what the real grids say (one JSON record per shape or maze, from *)
(* harness/grid.cc) against the definition of a grid in Maze.tla:          *)
(*                                                                         *)
(*   kind "I"  indices and coordinates of every cell of a shape (G01)      *)
(*   kind "J"  of some cells of a shape too large to enumerate; all        *)
(*             numbers are naturals of Big.tla (G01)                       *)
(*   kind "N"  what a grid offers around each of its cells (G02)           *)
(***************************************************************************)
EXTENDS Maze, Json, IOUtils
INSTANCE Big

VARIABLES i, done

Recs == ndJsonDeserialize(IOEnv.TRACE)

Expect(cond, k, why) == IF cond THEN TRUE ELSE PrintT(<<"BAD", i, k, why>>)

\* ---------------------------------------------------------------- indices

\* The coordinate after c, the first axis varying fastest.
Succ(c, sz) ==
    LET k == CHOOSE k \in 1..Len(sz) : c[k] < sz[k] - 1 /\ \A j \in 1..(k - 1) : c[j] = sz[j] - 1
    IN [ j \in 1..Len(sz) |-> IF j < k THEN 0 ELSE IF j = k THEN c[j] + 1 ELSE c[j] ]

JudgeShape(r) ==
    LET sz == r.sizes
        n  == Prod(sz)
    IN /\ Expect(r.product = n, 0, "product")
       /\ Expect(Len(r.nd) = n /\ Len(r.back) = n /\ Len(r.d1) = n, 0, "cells")
       /\ IF Len(r.nd) # n THEN TRUE
          ELSE /\ Expect(r.nd[1] = [ k \in 1..Len(sz) |-> 0 ], 0, "first cell")
               /\ \A k \in 1..(n - 1) : Expect(r.nd[k + 1] = Succ(r.nd[k], sz) /\ r.nd[k + 1] = Coord(k, sz), k, "coordinate of an index")
               /\ \A k \in 0..(n - 1) : Expect(r.back[k + 1] = k, k, "index of the coordinate of an index")
               /\ \A k \in 0..(n - 1) : Expect(r.d1[k + 1] = k, k, "index of a coordinate")

\* Index of a coordinate in a large shape, by Horner's rule from the last axis.
RECURSIVE Horner(_, _)
Horner(c, sz) == IF c = <<>> THEN <<>> ELSE Add(Head(c), Mul(Head(sz), Horner(Tail(c), Tail(sz))))

JudgeLarge(r) ==
    /\ Expect(r.product = BigProd(r.sizes), 0, "product")
    /\ \A k \in 1..Len(r.cases) :
         LET x == r.cases[k]
         IN /\ Expect(Len(x.nd) = Len(r.sizes) /\ \A a \in 1..Len(x.nd) : Less(x.nd[a], r.sizes[a]), k, "coordinate outside of the shape")
            /\ Expect(Horner(x.nd, r.sizes) = x.i, k, "coordinate of an index")
            /\ Expect(x.back = x.i, k, "index of the coordinate of an index")

\* ---------------------------------------------------------------- neighbours

Range(s) == { s[k] : k \in 1..Len(s) }
Bool(b) == IF b THEN 1 ELSE 0

\* The same coordinates, none of them twice.
Offers(s, cs) == Len(s) = Cardinality(cs) /\ Range(s) = cs

JudgeMaze(r) ==
    LET sz    == r.sizes
        n     == Prod(sz)
        K     == Len(sz)
        walls == Range(r.walls)
        open  == (0..(n - 1)) \ walls
        axis  == TLCEval([ j \in 0..(n - 1) |-> TLCEval({ Coord(x, sz) : x \in GridNeighbours(j, sz, Steps(K, FALSE)) \cap open }) ])
        all   == TLCEval([ j \in 0..(n - 1) |-> TLCEval({ Coord(x, sz) : x \in GridNeighbours(j, sz, Steps(K, TRUE)) \cap open }) ])
    IN /\ Expect(r.count = n, 0, "count")
       /\ Expect(r.size = sz, 0, "size")
       /\ Expect(r.same = 1, 0, "the cells are not the ones put in")
       /\ Expect(r.fresh = 1, 0, "a grid made without cells is not open everywhere")
       /\ \A j \in 0..(n - 1) :
            /\ Expect(r.open[j + 1] = Bool(j \in open), j, "is_active by index")
            /\ Expect(r.values[j + 1] = (IF j \in walls THEN -1 ELSE IF r.bit = 1 THEN 0 ELSE (j * 37 + 5) % 100), j, "value")
       /\ \A j \in 1..Len(r.has) : Expect(r.has[j] = Bool(j <= n), j - 1, "contains an index")
       /\ Expect(Offers(r.inside, { Coord(x, sz) : x \in 0..(n - 1) }), 0, "contains a coordinate")
       /\ Expect(Len(r.cells) = n, 0, "cells")
       /\ \A j \in 0..(n - 1) :
            LET x == r.cells[j + 1]
            IN /\ Expect(x.c = Coord(j, sz), j, "coordinate")
               /\ Expect(x.o = Bool(j \in open), j, "is_active by coordinate")
               /\ Expect(Offers(x.ai, axis[j]), j, "axis neighbours by index")
               /\ Expect(Offers(x.ac, axis[j]), j, "axis neighbours by coordinate")
               /\ Expect(Offers(x.oi, all[j]), j, "octile neighbours by index")
               /\ Expect(Offers(x.oc, all[j]), j, "octile neighbours by coordinate")
               /\ Expect(Offers(x.ck, all[j]), j, "neighbours one at a time")
               /\ Expect(x.ti = Bool(Cardinality(axis[j]) = 2), j, "transitory by index")
               /\ Expect(x.tn = Bool(Cardinality(axis[j]) = 2), j, "transitory by axis neighbours")
               /\ Expect(x.to = Bool(Cardinality(all[j]) = 2), j, "transitory by octile neighbours")

Judge(r) == CASE r.kind = "I" -> JudgeShape(r)
              [] r.kind = "J" -> JudgeLarge(r)
              [] r.kind = "N" -> JudgeMaze(r)

Init == i \in 1..Len(Recs) /\ done = FALSE

Next == /\ ~done
        /\ Judge(Recs[i]) = TRUE
        /\ PrintT(<<"DONE", i>>)
        /\ done' = TRUE
        /\ i' = i

Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
