---------------------------- MODULE MetricContract ----------------------------
(***************************************************************************)
(* Judges what the distance functions answer (H01), records from           *)
(* harness/num.cc.  Kind "D": all pairs of cells of an empty grid, where   *)
(* the distance is the number of steps a breadth-first search needs;       *)
(* kinds "P" and "F": two cells that may be far apart, in numbers of       *)
(* Big.tla.                                                                *)
(***************************************************************************)
EXTENDS Maze, Json, IOUtils
INSTANCE Big

VARIABLES i, done

Recs == ndJsonDeserialize(IOEnv.TRACE)

Expect(cond, k, why) == IF cond THEN TRUE ELSE PrintT(<<"BAD", i, k, why>>)

LayerOf(L, v) == (CHOOSE k \in 1..Len(L) : v \in L[k]) - 1
StepsFrom(adj, s) == LET L == TLCEval(Layers(adj, s)) IN TLCEval([ v \in DOMAIN adj |-> LayerOf(L, v) ])

RECURSIVE SumAxes(_, _, _)
SumAxes(a, b, k) == IF k = 0 THEN 0 ELSE Abs(a[k] - b[k]) + SumAxes(a, b, k - 1)
RECURSIVE SumSquares(_, _, _)
SumSquares(a, b, k) == IF k = 0 THEN 0 ELSE (a[k] - b[k]) * (a[k] - b[k]) + SumSquares(a, b, k - 1)

RECURSIVE LeastAxis(_, _, _)
LeastAxis(a, b, k) == IF k = 1 THEN Abs(a[1] - b[1]) ELSE Min2(Abs(a[k] - b[k]), LeastAxis(a, b, k - 1))
RECURSIVE Dot(_, _, _)
Dot(a, b, k) == IF k = 0 THEN 0 ELSE a[k] * b[k] + Dot(a, b, k - 1)
RECURSIVE Canberra(_, _, _)  \* in thousandths, each axis rounded down
Canberra(a, b, k) == IF k = 0 THEN 0 ELSE (IF a[k] + b[k] = 0 THEN 0 ELSE (1000 * Abs(a[k] - b[k])) \div (a[k] + b[k])) + Canberra(a, b, k - 1)

\* As many diagonal steps (of length sqrt 2, in one dimension there are none) as the shortest side of the way.
Octile(a, b, K, cheb) == LET diag == IF K = 1 THEN 0 ELSE LeastAxis(a, b, K) IN (cheb - diag) * 1000000 + diag * 1414214

JudgeGrid(r) ==
    LET K    == r.K
        sz   == [ k \in 1..K |-> r.m ]
        n    == Prod(sz)
        all  == 0..(n - 1)
        axis == GridAdj(sz, all, FALSE)
        oct  == GridAdj(sz, all, TRUE)
        co   == TLCEval([ c \in all |-> TLCEval(Coord(c, sz)) ])
        D(a, b) == r.d[a * n + b + 1]
    IN /\ Expect(Len(r.d) = n * n, 0, "pairs")
       /\ \A a \in all :
            LET da == TLCEval(StepsFrom(axis, a))
                do == TLCEval(StepsFrom(oct, a))
            IN \A b \in all :
                 LET x  == D(a, b)
                     e2 == SumSquares(co[a], co[b], K)
                 IN /\ Expect(x[1] = da[b] /\ x[1] = SumAxes(co[a], co[b], K), a * n + b, "manhattan")
                    /\ Expect(x[2] = do[b], a * n + b, "chebyshev")
                    /\ Expect(x[3] = e2, a * n + b, "squared euclidean")
                    /\ Expect(IF r.float = 1 THEN (x[4] - 1) * (x[4] - 1) <= 1000000 * e2 \/ x[4] <= 0 ELSE x[4] * x[4] <= e2, a * n + b, "euclidean too large")
                    /\ Expect(IF r.float = 1 THEN 1000000 * e2 <= (x[4] + 2) * (x[4] + 2) ELSE e2 < (x[4] + 1) * (x[4] + 1), a * n + b, "euclidean too small")
                    /\ Expect(x[5] <= 0, a * n + b, "euclidean above manhattan")
                    /\ Expect(x[6] >= 0, a * n + b, "euclidean below chebyshev")
                    /\ Expect((x[4] = 0) = (a = b), a * n + b, "euclidean zero")
                    /\ IF r.float = 0 THEN TRUE ELSE
                       LET o  == Octile(co[a], co[b], K, do[b])
                           cb == Canberra(co[a], co[b], K)
                           na == Dot(co[a], co[a], K)
                           nb == Dot(co[b], co[b], K)
                           ab == Dot(co[a], co[b], K)
                       IN /\ Expect(1000 * x[7] <= o + 1000 /\ o <= 1000 * (x[7] + 2), a * n + b, "octile")
                          /\ Expect(x[8] >= cb - 1 /\ x[8] <= cb + K + 1, a * n + b, "canberra")
                          /\ Expect(IF na * nb = 0 THEN x[9] = 1000
                                     \* cosine c = (1000 - x) / 1000, give or take a thousandth: (c - 2)^2 <= dot^2 / (na nb) <= (c + 2)^2
                                     ELSE LET c == 1000 - x[9] IN (IF c < 2 THEN TRUE ELSE (c - 2) * (c - 2) <= (1000000 \div (na * nb) + 1) * ab * ab) /\ ((ab * ab * 1000) \div (na * nb)) * 1000 <= (c + 2) * (c + 2), a * n + b, "cosine")
                    /\ Expect(D(b, a) = x, a * n + b, "not symmetric")
       \* moving one end by an axis step changes no distance by more than one
       /\ \A a \in all : \A a2 \in axis[a] : \A b \in all :
            LET one == IF r.float = 1 THEN 1001 ELSE 1 IN
            Expect(Abs(D(a, b)[1] - D(a2, b)[1]) <= 1 /\ Abs(D(a, b)[2] - D(a2, b)[2]) <= 1 /\ Abs(D(a, b)[4] - D(a2, b)[4]) <= one, a * n + b, "not consistent")

MaxOf(s) == LET RECURSIVE M(_)
                M(k) == IF k = 1 THEN s[1] ELSE LET m == M(k - 1) IN IF Less(m, s[k]) THEN s[k] ELSE m
            IN M(Len(s))

JudgePair(r) ==
    LET ds == TLCEval([ k \in 1..Len(r.a) |-> Distance(r.a[k], r.b[k]) ])
    IN /\ Expect(r.ab[1] = BigSum(ds), 1, "manhattan")
       /\ Expect(r.ab[2] = MaxOf(ds), 1, "chebyshev")
       /\ Expect(r.ba = r.ab, 1, "not symmetric")

\* Kind "F": the Euclidean distance (in whole units; doubles only) and the Canberra distance (in thousandths), of cells that may be far apart.
JudgeFar(r) ==
    LET K   == Len(r.a)
        ds  == TLCEval([ k \in 1..K |-> Distance(r.a[k], r.b[k]) ])
        sq  == TLCEval(BigSum([ k \in 1..K |-> Mul(ds[k], ds[k]) ]))
        e   == r.ab[1]
        low == IF Less(e, <<2>>) THEN <<>> ELSE Sub(e, <<2>>)
        up  == Add(e, <<3>>)
        \* the denominators that are not zero; their product D and the sum of 1000 * ds[k] * (D / den[k])
        den == TLCEval([ k \in 1..K |-> LET s == Add(r.a[k], r.b[k]) IN IF s = <<>> THEN <<1>> ELSE s ])
        D   == TLCEval(BigProd(den))
        N   == TLCEval(BigSum([ k \in 1..K |-> Mul(<<0, 1>>, Mul(ds[k], BigProd([ j \in 1..K |-> IF j = k THEN <<1>> ELSE den[j] ]))) ]))
        c   == r.ab[2]
    IN /\ Expect(r.exact = 0 \/ (Leq(Mul(low, low), sq) /\ Less(sq, Mul(up, up))), 1, "euclidean")
       /\ Expect(Less(N, Mul(Add(c, <<2>>), D)) /\ Leq(Mul(c, D), Add(N, D)), 1, "canberra")
       /\ Expect(r.ba = r.ab, 1, "not symmetric")

Judge(r) == IF r.kind = "F" THEN JudgeFar(r) ELSE IF r.kind = "D" THEN JudgeGrid(r) ELSE JudgePair(r)

Init == i \in 1..Len(Recs) /\ done = FALSE

Next == /\ ~done
        /\ Judge(Recs[i]) = TRUE
        /\ PrintT(<<"DONE", i>>)
        /\ done' = TRUE
        /\ i' = i

Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
