----------------------------- MODULE JpsContract -----------------------------
(***************************************************************************)
(* What jump point search may return (S05).  A route is a list of          *)
(* waypoints; between consecutive waypoints one travels straight along an  *)
(* axis or a diagonal, over open cells only.  A diagonal step needs one of *)
(* the two cells at its corner to be open, except that the search may      *)
(* squeeze into the cell at which it ends ("goal").                        *)
(*                                                                         *)
(* Records as in SolverContract.  The search runs from e to s when x.rev,  *)
(* so its goal is s then; otherwise its goal is e.                         *)
(***************************************************************************)
EXTENDS Halls, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, done

X(r, c) == c % r.sizes[1]
Y(r, c) == c \div r.sizes[1]
Cell(r, x, y) == x + y * r.sizes[1]

Sign(v) == IF v < 0 THEN -1 ELSE IF v > 0 THEN 1 ELSE 0

\* One step, strictly: never between two blocked corners.
StrictStep(r, open, a, b) ==
    LET dx == X(r, b) - X(r, a)
        dy == Y(r, b) - Y(r, a)
    IN /\ a \in open /\ b \in open /\ a # b
       /\ Abs(dx) <= 1 /\ Abs(dy) <= 1
       /\ (dx = 0 \/ dy = 0 \/ Cell(r, X(r, b), Y(r, a)) \in open \/ Cell(r, X(r, a), Y(r, b)) \in open)

Step(r, open, goal, a, b) ==
    \/ StrictStep(r, open, a, b)
    \/ /\ b = goal /\ a \in open /\ b \in open
       /\ Abs(X(r, b) - X(r, a)) = 1 /\ Abs(Y(r, b) - Y(r, a)) = 1

\* The cells from waypoint a to waypoint b.
Aligned(r, a, b) ==
    LET dx == X(r, b) - X(r, a)
        dy == Y(r, b) - Y(r, a)
    IN dx = 0 \/ dy = 0 \/ Abs(dx) = Abs(dy)

Segment(r, a, b) ==
    LET dx == X(r, b) - X(r, a)
        dy == Y(r, b) - Y(r, a)
        n  == Max2(Abs(dx), Abs(dy))
    IN [ k \in 1..(n + 1) |-> Cell(r, X(r, a) + Sign(dx) * (k - 1), Y(r, a) + Sign(dy) * (k - 1)) ]

\* w: waypoints in the order of the search, its start and its goal included.
Legal(r, open, w, from, goal) ==
    /\ Len(w) > 1 /\ w[1] = from /\ w[Len(w)] = goal
    /\ \A k \in 1..Len(w) : w[k] \in open
    /\ Cardinality({ w[k] : k \in 1..Len(w) }) = Len(w)
    /\ \A k \in 1..(Len(w) - 1) :
          /\ Aligned(r, w[k], w[k + 1])
          /\ LET g == TLCEval(Segment(r, w[k], w[k + 1]))
             IN \A j \in 1..(Len(g) - 1) : Step(r, open, goal, g[j], g[j + 1])

Expect(cond, k, why) == IF cond THEN TRUE ELSE PrintT(<<"BAD", i, k, why>>)

Judge(r, k, x, open, strictReach, loose) ==
    LET from == IF x.rev THEN r.e ELSE r.s
        goal == IF x.rev THEN r.s ELSE r.e
        \* rev: listed in the order of the search; otherwise against it; without the start of the search
        w    == TLCEval(<<from>> \o (IF x.rev THEN x.path ELSE Reverse(x.path)))
    IN IF x.err # "" THEN Expect(FALSE, k, "error")
       ELSE IF ~(r.s \in open /\ r.e \in open) THEN Expect(x.path = <<>>, k, "blocked end")
       ELSE IF r.s = r.e THEN Expect(x.path = <<r.e>>, k, "start is end")
       ELSE IF x.path = <<>> THEN Expect(r.e \notin strictReach, k, "no route returned")
       ELSE Expect(Legal(r, open, w, from, goal), k, "not a legal route")

\* (A door is passed without squeezing: its wall is one cell thick.)
CheckHalls(r) ==
    LET open == TLCEval({ c \in 0..(r.n - 1) : HallOpen(r, c) })
    IN \A k \in 1..Len(r.res) : Judge(r, k, r.res[k], open, IF HallDist(r, TRUE) >= 0 THEN {r.e} ELSE {}, <<>>)

CheckMaze(r) ==
    LET open  == TLCEval((0..(r.n - 1)) \ { r.blocked[k] : k \in 1..Len(r.blocked) })
        all   == TLCEval(GridAdj(r.sizes, open, TRUE))
        strict == TLCEval([ c \in 0..(r.n - 1) |-> { d \in all[c] : StrictStep(r, open, c, d) } ])
        reach == TLCEval(IF r.s \in open THEN Reachable(strict, r.s) ELSE {})
    IN \A k \in 1..Len(r.res) : Judge(r, k, r.res[k], open, reach, all)

CheckRecord(r) == IF r.kind = "h" THEN CheckHalls(r) ELSE CheckMaze(r)

Init == i \in 1..Len(Recs) /\ done = FALSE

Next == /\ ~done
        /\ CheckRecord(Recs[i]) = TRUE
        /\ PrintT(<<"DONE", i>>)
        /\ done' = TRUE
        /\ i' = i

Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
