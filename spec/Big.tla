--------------------------------- MODULE Big ---------------------------------
(***************************************************************************)
(* Naturals beyond TLC's 32-bit integers: sequences of limbs base 1000,    *)
(* the least significant first, without leading zeros (zero is <<>>).      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

LOCAL B == 1000

RECURSIVE Trim(_)
Trim(a) == IF a = <<>> THEN a ELSE IF a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a

RECURSIVE OfNat(_)
OfNat(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o OfNat(n \div B)

At(a, k) == IF k <= Len(a) THEN a[k] ELSE 0

RECURSIVE Carry(_, _)
Carry(a, c) == \* limbs may be large; c is carried in
    IF a = <<>> THEN OfNat(c)
    ELSE LET x == a[1] + c IN <<x % B>> \o Carry(Tail(a), x \div B)

BMax(a, b) == IF a > b THEN a ELSE b

Add(a, b) == Trim(Carry([ k \in 1..BMax(Len(a), Len(b)) |-> At(a, k) + At(b, k) ], 0))

RECURSIVE ConvAt(_, _, _, _)
ConvAt(a, b, k, i) == \* sum of a[i] * b[k + 1 - i], i..1
    IF i = 0 THEN 0 ELSE (IF k + 1 - i >= 1 THEN At(a, i) * At(b, k + 1 - i) ELSE 0) + ConvAt(a, b, k, i - 1)

Mul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
             ELSE Trim(Carry([ k \in 1..(Len(a) + Len(b) - 1) |-> ConvAt(a, b, k, k) ], 0))

RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, k) == IF k = 0 THEN FALSE ELSE IF a[k] # b[k] THEN a[k] < b[k] ELSE LessFrom(a, b, k - 1)

Less(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LessFrom(a, b, Len(a))

Leq(a, b) == a = b \/ Less(a, b)

\* The non-negative difference.
RECURSIVE Borrow(_, _, _, _)
Borrow(a, b, k, c) ==
    IF k > Len(a) THEN <<>>
    ELSE LET x == a[k] - At(b, k) - c
         IN <<IF x < 0 THEN x + B ELSE x>> \o Borrow(a, b, k + 1, IF x < 0 THEN 1 ELSE 0)
Sub(a, b) == Trim(Borrow(a, b, 1, 0))

Distance(a, b) == IF Less(a, b) THEN Sub(b, a) ELSE Sub(a, b)

RECURSIVE BigProd(_)
BigProd(s) == IF s = <<>> THEN <<1>> ELSE Mul(Head(s), BigProd(Tail(s)))

RECURSIVE BigSum(_)
BigSum(s) == IF s = <<>> THEN <<>> ELSE Add(Head(s), BigSum(Tail(s)))
=============================================================================
