------------------------------- MODULE Numbers -------------------------------
(***************************************************************************)
(* Fixed-point reals for the numeric parts: a value v with L limbs is the   *)
(* big integer round(v * 10^(4 L)).                                          *)
(***************************************************************************)
EXTENDS BigNat, FiniteSets, FiniteSetsExt

Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
RECURSIVE IPow(_, _)
IPow(a, k) == IF k = 0 THEN 1 ELSE a * IPow(a, k - 1)

\* n * 10^(4 L)
Up(n, L) == IF n = <<>> THEN <<>> ELSE [i \in 1..L |-> 0] \o n
ZUp(z, L) == [n |-> z.n, m |-> Up(z.m, L)]
\* 10^k
Ten(k) == Up(OfNat(IPow(10, k % 4)), k \div 4)

\* d * x = n up to tol * d, where x has L limbs and tol counts units of its last place
Is(x, d, n, L, tol) == ZNear(ZMul(x, Z(d)), ZUp(Z(n), L), NMul(OfNat(d), OfNat(tol)))
ZIs(x, d, n, L, tol) == ZNear(ZMul(x, ZN(d)), ZUp(n, L), NMul(d, OfNat(tol)))

\* exp(-n/d), 8 limbs; d < 200000
Exp(n, d) ==
    LET h == CHOOSE i \in 1..9 : n \div d < IPow(2, i - 1) /\ (i = 1 \/ n \div d >= IPow(2, i - 2))
        x == FoldLeft(LAMBDA a, i : NHalf(a), NDivSmall(Up(OfNat(n), 8), d), [i \in 1..h |-> i])    \* n / (d 2^h) < 1/2
        Step(a, i) == LET t == NDivSmall(NShift(NMul(a.t, x), 8), i)
                      IN  [t |-> t, even |-> IF i % 2 = 0 THEN NAdd(a.even, t) ELSE a.even,
                                    odd |-> IF i % 2 = 1 THEN NAdd(a.odd, t) ELSE a.odd]
        one == Up(<<1>>, 8)
        s == FoldLeft(Step, [t |-> one, even |-> one, odd |-> <<>>], [i \in 1..26 |-> i])
    IN  IF n \div d > 74 THEN <<>>
        ELSE FoldLeft(LAMBDA a, i : NShift(NMul(a, a), 8), NSub(s.even, s.odd), [i \in 1..h |-> i])

FourPiSq == <<4345, 4357, 1760, 4784, 39>>      \* 4 pi^2, 4 limbs
=============================================================================
