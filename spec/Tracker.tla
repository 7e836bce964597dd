------------------------------- MODULE Tracker -------------------------------
(***************************************************************************)
(* What a correction does to the tracker, stated on its inputs and          *)
(* outcome: the groups of a scan, the weights of joint hypotheses and what  *)
(* follows from them, births, viability.  Probabilities are integers out of *)
(* 10^9 (observed), out of 128 (given); weights are exact big naturals.     *)
(***************************************************************************)
EXTENDS BigNat, FiniteSets, FiniteSetsExt, Region

Sum(S) == FoldLeft(LAMBDA a, x : a + x, 0, S)
SeqSet(s) == {s[i] : i \in DOMAIN s}
IsListOf(s, S) == Len(s) = Cardinality(S) /\ SeqSet(s) = S
Abs(x) == IF x < 0 THEN -x ELSE x
PPB == 1000000000
PPM128 == 7812500       \* 10^9 / 128

-----------------------------------------------------------------------------
(* Groups.  bt: function from targets to boxes; br: sequence of report boxes. *)
Linked(bt, br) == {<<t, j>> \in (DOMAIN bt) \X (DOMAIN br) : Meets(bt[t], br[j])}

RECURSIVE Reach(_, _)
\* the reports and targets linked to those in <<targets, reports>> by a chain of overlaps
Reach(L, g) ==
    LET ts == g[1] \cup {p[1] : p \in {q \in L : q[2] \in g[2]}}
        js == g[2] \cup {p[2] : p \in {q \in L : q[1] \in ts}}
    IN  IF <<ts, js>> = g THEN g ELSE Reach(L, <<ts, js>>)

Groups(bt, br, selected) ==
    LET L == Linked(bt, br)
        G == {Reach(L, <<{}, {j}>>) : j \in DOMAIN br}
    IN  G \cup {<<{t}, {}>> : t \in {x \in selected : \A g \in G : x \notin g[1]}}

-----------------------------------------------------------------------------
(* Joint hypotheses of a group: every target (1..M) takes a report of its    *)
(* own, is missed (MISS), or is absent (GONE).  W[i][o] is the weight of     *)
(* target i taking option o.                                                 *)
MISS == 0
GONE == -1

RECURSIVE Fwd(_, _, _)
Fwd(W, R, i) ==     \* S |-> weight of the first i targets taking exactly the reports S
    IF i = 0 THEN [S \in SUBSET R |-> IF S = {} THEN <<1>> ELSE <<>>]
    ELSE LET P == Fwd(W, R, i - 1)
         IN  [S \in SUBSET R |->
                FoldSet(LAMBDA j, a : NAdd(a, NMulSmall(P[S \ {j}], W[i][j])),
                        NMulSmall(P[S], W[i][MISS] + W[i][GONE]), S)]

RECURSIVE Bwd(_, _, _)
Bwd(W, R, i) ==     \* S |-> weight of targets i.. when the reports S are taken
    IF i > Len(W) THEN [S \in SUBSET R |-> <<1>>]
    ELSE LET P == Bwd(W, R, i + 1)
         IN  [S \in SUBSET R |->
                FoldSet(LAMBDA j, a : NAdd(a, NMulSmall(P[S \cup {j}], W[i][j])),
                        NMulSmall(P[S], W[i][MISS] + W[i][GONE]), R \ S)]

BigSum(S, f(_)) == FoldSet(LAMBDA x, a : NAdd(a, f(x)), <<>>, S)

\* [all |-> weight of all hypotheses, is |-> function from <<i, o>> to the weight of those with i taking o]
Shares(W, R) ==
    LET M == Len(W)
        F == [i \in 0..M |-> Fwd(W, R, i)]
        B == [i \in 1..(M + 1) |-> Bwd(W, R, i)]
        Is(i, o) == IF o = MISS
                    THEN NMulSmall(BigSum(SUBSET R, LAMBDA S : NMul(F[i - 1][S], B[i + 1][S])), W[i][MISS])
                    ELSE NMulSmall(BigSum(SUBSET (R \ {o}), LAMBDA S : NMul(F[i - 1][S], B[i + 1][S \cup {o}])), W[i][o])
    IN  [all |-> B[1][{}], is |-> [p \in (1..M) \X (R \cup {MISS}) |-> Is(p[1], p[2])]]

\* |x / 10^9 - part / all| <= tol / 10^9
Near(x, part, all, tol) ==
    /\ x >= -tol
    /\ NLe(ZSub(ZMul(Z(x), ZN(all)), ZN(NMul(part, OfNat(PPB)))).m, NMulSmall(all, tol))

\* every hypothesis of positive weight, heaviest first: [h |-> options, w |-> weight]
RECURSIVE Hyps(_, _, _)
Hyps(W, R, i) ==
    IF i = 0 THEN {[h |-> <<>>, w |-> <<1>>]}
    ELSE UNION { { [h |-> Append(p.h, o), w |-> NMulSmall(p.w, W[i][o])] :
                   o \in {x \in (R \ SeqSet(p.h)) \cup {MISS, GONE} : W[i][x] > 0} }
                 : p \in Hyps(W, R, i - 1) }
Ranked(W, R) == SetToSortSeq(Hyps(W, R, Len(W)), LAMBDA a, b : NLt(b.w, a.w))

\* The numbers of hypotheses a limit on relative weight wn/wd and a maximum nh may leave,
\* with room for rounding of one part in 10^9.
Taken(hs, wn, wd, nh) ==
    LET n == Len(hs)
        pre == FoldLeft(LAMBDA a, x : Append(a, NAdd(IF a = <<>> THEN <<>> ELSE a[Len(a)], x.w)), <<>>, hs)
        Lhs(k) == NMul(hs[k].w, OfNat(wd))
        Rhs(k) == NMul(pre[k], OfNat(wn))
        Surely(k) == k >= nh \/ NLt(NMul(Lhs(k), OfNat(PPB + 1)), NMul(Rhs(k), OfNat(PPB)))
        Maybe(k) == k >= nh \/ NLt(NMul(Lhs(k), OfNat(PPB)), NMul(Rhs(k), OfNat(PPB + 1)))
        stop == {k \in 1..n : Maybe(k) /\ \A i \in 1..(k - 1) : ~Surely(i)}
    IN  IF \E k \in 1..n : Surely(k) THEN stop
        ELSE stop \cup (n..(IF wn > 0 THEN n + 1 ELSE nh))      \* hypotheses of no weight may follow

\* Is x / 10^9 the share of the hypotheses that satisfy p among the n heaviest,
\* for some choice among equals (up to one part in 10^9) at the cut?
Within(hs, n, x, p(_), tol) ==
    LET m == IF n < Len(hs) THEN n ELSE Len(hs)
        c == hs[m].w
        Eq(a) == NLe(NMul(NDist(a, c), OfNat(PPB)), c)
        sure == {i \in 1..m : ~Eq(hs[i].w)}
        tied == {i \in 1..Len(hs) : Eq(hs[i].w)}
        t == m - Cardinality(sure)
        yes == Cardinality({i \in tied : p(hs[i].h)})
        no == Cardinality(tied) - yes
        base == BigSum(sure, LAMBDA i : hs[i].w)
        all == NAdd(base, NMulSmall(c, t))
        with == BigSum({i \in sure : p(hs[i].h)}, LAMBDA i : hs[i].w)
        lo == NAdd(with, NMulSmall(c, IF t > no THEN t - no ELSE 0))
        hi == NAdd(with, NMulSmall(c, IF t < yes THEN t ELSE yes))
        X == ZMul(Z(x), ZN(all))
        T == ZN(NMulSmall(all, tol))
    IN  /\ ZLe(ZN(NMul(lo, OfNat(PPB))), ZAdd(X, T))
        /\ ZLe(ZSub(X, T), ZN(NMul(hi, OfNat(PPB))))
=============================================================================
