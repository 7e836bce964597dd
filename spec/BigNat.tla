------------------------------- MODULE BigNat -------------------------------
(***************************************************************************)
(* Natural and signed numbers without TLC's 32 bit limit.                  *)
(* A big natural is a little-endian sequence of base 10000 limbs without   *)
(* trailing zero limbs (zero is <<>>).  A big integer is [n |-> BOOLEAN    *)
(* (negative), m |-> big natural].                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

LOCAL B == 10000

RECURSIVE Trim(_)
Trim(a) == IF a = <<>> THEN a
           ELSE IF a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a

RECURSIVE OfNat(_)
OfNat(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o OfNat(n \div B)

Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

NAdd(a, b) ==
    LET n == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
        f(acc, i) == LET s == Limb(a, i) + Limb(b, i) + acc[2]
                     IN  << Append(acc[1], s % B), s \div B >>
        r == FoldLeft(f, << <<>>, 0 >>, [i \in 1..n |-> i])
    IN  IF r[2] = 0 THEN r[1] ELSE Append(r[1], r[2])

\* a - b, for a >= b
NSub(a, b) ==
    LET f(acc, i) == LET s == a[i] - Limb(b, i) - acc[2]
                     IN  IF s < 0 THEN << Append(acc[1], s + B), 1 >>
                         ELSE << Append(acc[1], s), 0 >>
        r == FoldLeft(f, << <<>>, 0 >>, [i \in 1..Len(a) |-> i])
    IN  Trim(r[1])

NMulSmall(a, d) ==
    IF d = 0 THEN <<>> ELSE
    LET f(acc, x) == LET s == x * d + acc[2]
                     IN  << Append(acc[1], s % B), s \div B >>
        r == FoldLeft(f, << <<>>, 0 >>, a)
    IN  IF r[2] = 0 THEN r[1] ELSE Append(r[1], r[2])

NMul(a, b) ==
    IF a = <<>> \/ b = <<>> THEN <<>> ELSE
    LET f(acc, i) == NAdd(acc, [k \in 1..(i - 1) |-> 0] \o NMulSmall(a, b[i]))
    IN  Trim(FoldLeft(f, <<>>, [i \in 1..Len(b) |-> i]))

\* -1, 0, 1
NCmp(a, b) ==
    IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
    ELSE LET D == {i \in 1..Len(a) : a[i] # b[i]}
         IN  IF D = {} THEN 0
             ELSE LET k == CHOOSE i \in D : \A j \in D : j <= i
                  IN  IF a[k] < b[k] THEN -1 ELSE 1
NLe(a, b) == NCmp(a, b) <= 0
NLt(a, b) == NCmp(a, b) < 0
NDist(a, b) == IF NLe(b, a) THEN NSub(a, b) ELSE NSub(b, a)

NSum(S) == FoldLeft(NAdd, <<>>, S)
NProd(S) == FoldLeft(NMul, <<1>>, S)

RECURSIVE NPow(_, _)
NPow(a, k) == IF k = 0 THEN <<1>> ELSE
              IF k % 2 = 0 THEN LET h == NPow(a, k \div 2) IN NMul(h, h)
              ELSE NMul(a, NPow(a, k - 1))

\* a \div B^k
NShift(a, k) == IF Len(a) <= k THEN <<>> ELSE SubSeq(a, k + 1, Len(a))

NHalf(a) ==
    LET f(acc, i) == LET x == a[i] + B * acc[2]
                     IN  << <<x \div 2>> \o acc[1], x % 2 >>
        r == FoldLeft(f, << <<>>, 0 >>, [i \in 1..Len(a) |-> Len(a) + 1 - i])
    IN  Trim(r[1])

\* a \div d for a small d (d < 200000)
NDivSmall(a, d) ==
    LET f(acc, i) == LET x == a[i] + B * acc[2]
                     IN  << <<x \div d>> \o acc[1], x % d >>
        r == FoldLeft(f, << <<>>, 0 >>, [i \in 1..Len(a) |-> Len(a) + 1 - i])
    IN  Trim(r[1])

-----------------------------------------------------------------------------
Z(i) == [n |-> i < 0, m |-> OfNat(IF i < 0 THEN -i ELSE i)]
ZN(m) == [n |-> FALSE, m |-> m]
ZNeg(a) == [n |-> ~a.n, m |-> a.m]
ZAdd(a, b) ==
    IF a.n = b.n THEN [n |-> a.n, m |-> NAdd(a.m, b.m)]
    ELSE IF NLe(b.m, a.m) THEN [n |-> a.n, m |-> NSub(a.m, b.m)]
    ELSE [n |-> b.n, m |-> NSub(b.m, a.m)]
ZSub(a, b) == ZAdd(a, ZNeg(b))
ZMul(a, b) == [n |-> a.n # b.n, m |-> NMul(a.m, b.m)]
ZIsZero(a) == a.m = <<>>
ZSign(a) == IF a.m = <<>> THEN 0 ELSE IF a.n THEN -1 ELSE 1
ZLe(a, b) == ZSign(ZSub(a, b)) <= 0
ZLt(a, b) == ZSign(ZSub(a, b)) < 0
ZSum(S) == FoldLeft(ZAdd, Z(0), S)
\* |a - b| <= tol (a big natural)
ZNear(a, b, tol) == NLe(ZSub(a, b).m, tol)
=============================================================================
