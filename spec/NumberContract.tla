---------------------------- MODULE NumberContract ----------------------------
(***************************************************************************)
(* Judges what the numeric utilities answer (U01) and how durations are    *)
(* printed (U02), records from harness/num.cc.  Numbers are <<sign, big>>  *)
(* with a natural of Big.tla; texts are sequences of character codes.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
INSTANCE Big

VARIABLES i, done

Recs == ndJsonDeserialize(IOEnv.TRACE)

Expect(cond, k, why) == IF cond THEN TRUE ELSE PrintT(<<"BAD", i, k, why>>)

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

\* ---------------------------------------------------------------- order, by rank

RECURSIVE ClampCases(_, _, _, _)
\* <<value, low, high>>, in the order of the harness
ClampCases(n, x, l, h) ==
    IF x > n THEN <<>>
    ELSE <<<<x, l, h>>>> \o (IF h < n THEN ClampCases(n, x, l, h + 1) ELSE IF l < n THEN ClampCases(n, x, l + 1, l + 1) ELSE ClampCases(n, x + 1, 1, 1))

JudgeOrder(r) ==
    LET n == r.n
        cs == TLCEval(ClampCases(n, 1, 1, 1))
    IN /\ Expect(Len(r.min) = n * n /\ Len(r.max) = n * n /\ Len(r.clamp) = Len(cs), 0, "cases")
       /\ \A x \in 1..n : \A y \in 1..n :
            /\ Expect(r.min[(x - 1) * n + y] = Min2(x, y), x * 1000 + y, "min")
            /\ Expect(r.max[(x - 1) * n + y] = Max2(x, y), x * 1000 + y, "max")
       /\ \A k \in 1..Len(cs) : Expect(r.clamp[k] = Max2(cs[k][2], Min2(cs[k][1], cs[k][3])), k, "clamp")

\* ---------------------------------------------------------------- sign, abs, powers, products

JudgeSigns(r) ==
    \A k \in 1..Len(r.v) :
        /\ Expect(r.sign[k] = (IF r.v[k][2] = <<>> THEN 0 ELSE r.v[k][1]), k, "sign")
        /\ Expect(r.wide[k] = r.sign[k], k, "sign as another type")
        /\ Expect(r.abs[k] = <<1, r.v[k][2]>>, k, "abs")

RECURSIVE Power(_, _)
Power(b, e) == IF e = 0 THEN <<1>> ELSE LET h == TLCEval(Power(b, e \div 2)) IN IF e % 2 = 0 THEN Mul(h, h) ELSE Mul(b, Mul(h, h))

\* (exponents are ordinary numbers)
JudgePowers(r) == \A k \in 1..Len(r.p) : Expect(r.p[k][3] = <<1, Power(r.p[k][1][2], r.p[k][2])>>, k, "powui")

JudgeProducts(r) ==
    \A k \in 1..Len(r.p) :
        LET true == BigProd([ a \in 1..Len(r.p[k][1]) |-> r.p[k][1][a][2] ])
        IN Expect(r.p[k][2] = <<1, IF Less(r.top[2], true) THEN r.top[2] ELSE true>>, k, "product")

\* ---------------------------------------------------------------- texts

Digit(c) == c >= 48 /\ c <= 57
RECURSIVE Digits(_)
Digits(s) == IF s = <<>> THEN 0 ELSE IF Digit(Head(s)) THEN 1 + Digits(Tail(s)) ELSE 0
RECURSIVE Value(_)
Value(s) == IF s = <<>> THEN <<>> ELSE Add(Mul(<<10>>, Value(SubSeq(s, 1, Len(s) - 1))), OfNat(s[Len(s)] - 48))
RECURSIVE Ten(_)
Ten(k) == IF k = 0 THEN <<1>> ELSE Mul(<<10>>, Ten(k - 1))

\* [neg, whole, frac, rest]: a number at the front of a text, the digits before and after its point, and what follows it.
Parsed(s) ==
    LET neg == s # <<>> /\ s[1] = 45
        u   == IF neg THEN Tail(s) ELSE s
        w   == Digits(u)
        pt  == w < Len(u) /\ u[w + 1] = 46
        f   == IF pt THEN Digits(SubSeq(u, w + 2, Len(u))) ELSE 0
        end == w + (IF pt THEN 1 ELSE 0) + f
    IN [ neg |-> neg, whole |-> SubSeq(u, 1, w), point |-> pt, frac |-> IF pt THEN SubSeq(u, w + 2, w + 1 + f) ELSE <<>>, rest |-> SubSeq(u, end + 1, Len(u)) ]

\* Without trailing zeros behind the point, and no point without digits behind it.
Trimmed(p) == p.whole # <<>> /\ (p.point => p.frac # <<>> /\ p.frac[Len(p.frac)] # 48)

Micros(p) == \* the value times 10^k, given at most k digits behind the point
    Value(p.whole \o p.frac)
Scaled(p, k) == Mul(Micros(p), Ten(k - Len(p.frac)))

Units == << <<115>>, <<109, 115>>, <<194, 181, 115>>, <<110, 115>> >>

\* |a - b| <= t
Near(a, b, t) == Leq(Distance(a, b), t)

\* A duration of num / 2^k seconds, printed to the nearest 1 / scale (0: as exact as it gets) of its unit.
JudgeText(r) ==
    LET p    == TLCEval(Parsed(r.text))
        two  == Power(<<2>>, r.k)
        inU(u) == Mul(r.num, Ten(3 * (u - 1)))                 \* times two: the duration in unit u
        unit == IF \E u \in 1..4 : Leq(two, inU(u)) THEN CHOOSE u \in 1..4 : Leq(two, inU(u)) /\ \A v \in 1..(u - 1) : ~Leq(two, inU(v)) ELSE 4
        val  == TLCEval(inU(unit))
    IN /\ Expect(p.rest = Units[unit], 0, "unit")
       /\ Expect(Trimmed(p), 0, "trailing zeros")
       /\ IF p.rest # Units[unit] \/ ~Trimmed(p) \/ Len(p.frac) > 6 THEN TRUE
          ELSE LET printed == Mul(two, Scaled(p, 6))            \* times two and 10^6
                   exact   == Mul(val, Ten(6))
               IN /\ Expect(IF r.scale = 0 THEN Near(printed, exact, two)
                            \* at most half a step of the scale off, and a millionth
                            ELSE Near(Mul(<<2>>, Mul(OfNat(r.scale), printed)), Mul(<<2>>, Mul(OfNat(r.scale), exact)), Add(Mul(two, Ten(6)), Mul(OfNat(2 * r.scale), two))), 0, "value")
                  /\ Expect(r.scale # 1 \/ p.frac = <<>>, 0, "not rounded")
                  /\ Expect(p.neg = r.neg \/ Value(p.whole \o p.frac) = <<>>, 0, "sign")

JudgeTrim(r) ==
    LET a == TLCEval(Parsed(r.in))
        b == TLCEval(Parsed(r.text))
    IN /\ Expect(Trimmed(b) /\ b.rest = <<>>, 0, "trailing zeros")
       /\ Expect(a.neg = b.neg /\ (IF Len(b.frac) <= Len(a.frac) THEN Scaled(b, Len(a.frac)) = Micros(a) ELSE FALSE), 0, "another value")

Judge(r) == CASE r.kind = "O" -> JudgeOrder(r)
              [] r.kind = "A" -> JudgeSigns(r)
              [] r.kind = "W" -> JudgePowers(r)
              [] r.kind = "M" -> JudgeProducts(r)
              [] r.kind = "S" -> JudgeText(r)
              [] r.kind = "Z" -> JudgeTrim(r)

Init == i \in 1..Len(Recs) /\ done = FALSE

Next == /\ ~done
        /\ Judge(Recs[i]) = TRUE
        /\ PrintT(<<"DONE", i>>)
        /\ done' = TRUE
        /\ i' = i

Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
