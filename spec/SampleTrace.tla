----------------------------- MODULE SampleTrace -----------------------------
(***************************************************************************)
(* Conformance of the random draws.  Each event has sums over N draws for   *)
(* exact inputs; a sum is accepted within seven standard errors of what the *)
(* distribution gives it, decided in squares over big integers.  Numbers    *)
(* recorded have 8 decimals.                                                *)
(***************************************************************************)
EXTENDS Numbers, TraceBase

N49 == OfNat(49)
Prod(a, b) == ZMul(Z(a), Z(b)).m
\* |x - e| squared at most 49 n v, plus what rounding makes of numbers of size sz
Within(x, e, n, v, sz) ==
    LET d == ZSub(x, ZUp(e, 2)).m
        s == NMul(OfNat(n), NMul(OfNat(sz + 1), Ten(2)))        \* n sz 10^-6
    IN  NLe(NMul(d, d), NAdd(NMul(NMul(N49, NMul(OfNat(n), v)), Ten(16)), NMul(s, s)))

\* counts against a probability of p / 10^9, with Bernstein's allowance for rare ones: d^2 <= 49 n p q + 17 d for d = |c - n p|
Prob(c, n, p) ==
    LET d == NDist(NMul(OfNat(c), Ten(9)), NMul(OfNat(n), OfNat(p)))
    IN  NLe(NMul(d, d), NAdd(NMul(NMul(N49, OfNat(n)), NMul(OfNat(p), NSub(Ten(9), OfNat(p)))), NMul(NMul(Ten(9), <<17>>), d)))

GaussOK(ev) ==
    LET S == ev.S D == IF Len(ev.P) = S * S THEN S ELSE 4
        P(i, j) == ev.P[(i - 1) * D + j]
        mx == FoldLeft(LAMBDA a, x : IF a > x THEN a ELSE x, 0, [i \in 1..S |-> P(i, i)])
        T(i, j) == ev.s2[(i - 1) * S + j]
        Var(i, j) == ZAdd(Z(0), ZAdd(ZMul(Z(P(i, i)), Z(P(j, j))), ZMul(Z(P(i, j)), Z(P(i, j))))).m
        uPu == ZSum([k \in 1..(S * S) |-> LET i == ((k - 1) \div S) + 1 j == ((k - 1) % S) + 1 IN ZMul(ZMul(Z(ev.u[i]), Z(ev.u[j])), Z(P(i, j)))])
        uu == Sum([i \in 1..S |-> ev.u[i] * ev.u[i]])
    IN
    /\ ev.finite
    /\ \A i \in 1..S : Within(ev.s1[i], Z(0), ev.N, OfNat(P(i, i)), mx)
    /\ \A i, j \in 1..S : Within(T(i, j), ZMul(Z(ev.N), Z(P(i, j))), ev.N, Var(i, j), mx)
    /\ \A i \in 1..S : Within(ev.lag[i], Z(0), ev.N, Prod(P(i, i), P(i, i)), mx)
    /\ Within(ev.along[1], ZMul(Z(ev.N), uPu), ev.N, NMulSmall(NMul(uPu.m, uPu.m), 2), mx * uu)
    /\ \A i \in 1..S : P(i, i) > 0 => Prob(ev.c1[i], ev.N, 682689492) /\ Prob(ev.c2[i], ev.N, 954499736)

\* the standard normal's distribution at h half deviations, in 10^-9
Phi(h) ==
    LET at == <<500000000, 691462461, 841344746, 933192799, 977249868, 993790335, 998650102, 999767371, 999968329>>
    IN  IF h >= 9 THEN 1000000000 ELSE IF h <= -9 THEN 0 ELSE IF h >= 0 THEN at[h + 1] ELSE 1000000000 - at[1 - h]

NormalOK(ev) ==
    /\ \A i \in 1..18 : Prob(ev.bins[i], ev.N, Phi(IF i = 18 THEN 9 ELSE i - 9) - Phi(IF i = 1 THEN -9 ELSE i - 10))
    /\ Within(ev.m[1], Z(0), ev.N, <<1>>, 1) /\ Within(ev.m[2], Z(ev.N), ev.N, <<2>>, 1) /\ Within(ev.m[3], Z(0), ev.N, <<1>>, 1)

UnitOK(ev) ==
    /\ ev.inside /\ ev.reaches
    /\ \A i \in 1..20 : Prob(ev.bins[i], ev.N, 50000000)
    \* mean: variance 1/12; neighbours: variance 1/144
    /\ LET sq(k, d) == NLe(NMulSmall(NMul(ev.m[k].m, ev.m[k].m), d), NMul(NMul(N49, OfNat(ev.N)), Ten(16))) IN sq(1, 12) /\ sq(2, 144)

\* threads draw unrelated numbers, each from the standard normal
StreamsOK(ev) ==
    /\ Len(ev.cross) = (ev.T * (ev.T - 1)) \div 2
    /\ \A i \in DOMAIN ev.cross : Within(ev.cross[i], Z(0), ev.N, <<1>>, 1)
    /\ \A t \in 1..ev.T : Within(ev.own[2 * t - 1], Z(0), ev.N, <<1>>, 1) /\ Within(ev.own[2 * t], Z(ev.N), ev.N, <<2>>, 1)

ShareOK(ev) ==
    LET p == NMul(OfNat(Phi(ev.box[2]) - Phi(ev.box[1])), OfNat(Phi(ev.box[4]) - Phi(ev.box[3])))       \* 10^-18
        n == ev.R * 1000
        \* the sum of R shares of a thousand draws each, in draws
        d == NDist(NMul(ev.sum.m, Ten(13)), NMul(OfNat(n), p))
    IN  /\ ev.unit /\ ~ev.sum.n
        /\ NLe(NMul(d, d), NAdd(NMul(NMul(N49, OfNat(n)), NMul(p, NDist(Ten(18), p))), NMul(NMul(Ten(18), <<17>>), d)))

\* a mixture's components get their shares of the draws, up to rounding
MixOK(ev) ==
    /\ Sum(ev.got) = ev.N
    /\ \A i \in DOMAIN ev.got : LET d == 128 * ev.got[i] - ev.w[i] * ev.N IN (IF d < 0 THEN -d ELSE d) <= 128 * Len(ev.w)

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET ev == Trace[l] IN
           (CASE ev.e = "gauss" -> GaussOK(ev)
              [] ev.e = "unit" -> UnitOK(ev)
              [] ev.e = "normal" -> NormalOK(ev)
              [] ev.e = "streams" -> StreamsOK(ev)
              [] ev.e = "share" -> ShareOK(ev)
              [] ev.e = "mix" -> MixOK(ev)
              [] OTHER -> FALSE) = TRUE
        /\ l' = l + 1
=============================================================================
