------------------------------- MODULE NumTrace -------------------------------
(* Conformance of boxes, Gaussians, mixtures, particles and motion models.    *)
(* Every event states the inputs (integers; probabilities and weights out of  *)
(* 128) and what the code made of them.                                       *)
EXTENDS Numbers, Region, TraceBase

SeqSet(s) == {s[i] : i \in DOMAIN s}
\* weights of 4 limbs that sum to one
Normal(ws) == ZNear(ZSum(ws), ZUp(Z(1), 4), <<0, 1>>)

-----------------------------------------------------------------------------
(* Kalman update and likelihood *)
Det(S) == S[1][1] * S[2][2] - S[1][2] * S[2][1]
Adj(S) == << <<S[2][2], -S[1][2]>>, <<-S[2][1], S[1][1]>> >>
Innov(P, R) == [a \in 1..2 |-> [b \in 1..2 |-> P[a][b] + R[a][b]]]
Quad2(A, d) == d[1] * (A[1][1] * d[1] + A[1][2] * d[2]) + d[2] * (A[2][1] * d[1] + A[2][2] * d[2])

\* the part of space the sensor sees: everything, or north, east, south, west of the origin
InView(side, x) == CASE side = 0 -> TRUE [] side = 1 -> x[1] > 0 [] side = 2 -> x[2] > 0 [] side = 3 -> x[1] < 0 [] OTHER -> x[2] < 0

\* eta * w is the weight k/128 times pd/128 times the likelihood of dz under S, over kap/(128 2^ke)
Weighs(eta, w, k, pd, S, dz, kap, ke) ==
    LET det == Det(S)
        E(x) == NMul(NMul(NMul(NMulSmall(NMul(eta.m, x), kap), NMulSmall(NMul(eta.m, x), kap)), OfNat(det)), NMul(FourPiSq, OfNat(16384)))
        X == Exp(Quad2(Adj(S), dz), det)
        F == NMul(NMul(NMul(OfNat(k * pd), OfNat(k * pd)), Ten(56)), NPow(OfNat(4), ke))
        R == NMul(F, X)
        tol == NAdd(NAdd(NDivSmall(NDivSmall(R, 1000), 1000), E(OfNat(4000))), NMulSmall(F, 100))
    IN  ~eta.n /\ ~w.n /\ NLe(NDist(E(w.m), R), tol)

\* so light that the mass may be given up: at most 1.001 * 10^-8
Vanishes(k, pd, S, dz, kap, ke) ==
    LET det == Det(S)
        X == Exp(Quad2(Adj(S), dz), det)
    IN  NLe(NMul(NMul(NMul(NMul(OfNat(k * pd), OfNat(k * pd)), X), Ten(34)), NPow(OfNat(4), ke)),
            NMul(NMul(OfNat(102), Ten(32)), NMul(NMul(NMul(OfNat(kap), OfNat(kap)), OfNat(16384)), NMul(OfNat(det), FourPiSq))))

KalOK(ev) ==
    LET n == Len(ev.in)
        Pd(i) == IF InView(ev.side, ev.in[i].x) THEN ev.pD ELSE 0
        S(i) == Innov(ev.in[i].P, ev.R)
        Dz(i) == <<ev.z[1] - ev.in[i].x[1], ev.z[2] - ev.in[i].x[2]>>
        Post(i, o) ==
            LET A == Adj(S(i)) d == Det(S(i)) p == ev.in[i]
                K == [a \in 1..4 |-> [b \in 1..2 |-> p.P[a][1] * A[1][b] + p.P[a][2] * A[2][b]]]      \* times det
            IN  /\ \A a \in 1..4 : Is(o.x[a], d, d * p.x[a] + K[a][1] * Dz(i)[1] + K[a][2] * Dz(i)[2], 3, 100000)
                /\ \A a \in 1..4 : \A b \in 1..4 : Is(o.P[a][b], d, d * p.P[a][b] - K[a][1] * p.P[1][b] - K[a][2] * p.P[2][b], 3, 100000)
    IN  /\ IF ev.out = <<>>
           THEN ZIsZero(ev.ret) /\ \A i \in 1..n : Vanishes(ev.in[i].w, Pd(i), S(i), Dz(i), ev.kap, ev.ke)
           ELSE /\ Len(ev.out) = n
                /\ Normal([i \in 1..n |-> ev.out[i].w])
                /\ \A i \in 1..n : Post(i, ev.out[i]) /\ Weighs(ev.ret, ev.out[i].w, ev.in[i].w, Pd(i), S(i), Dz(i), ev.kap, ev.ke)
        /\ ev.eta = ev.ret
        /\ ev.same
        /\ Is(ev.miss, 16384, 16384 - Sum([i \in 1..n |-> ev.in[i].w * Pd(i)]), 4, 10000)

\* share twelfths of a Gaussian are in view (found by a thousand samples)
SeeOK(ev) ==
    LET About(x, d, n, tol) == ZNear(ZMul(x, Z(d)), ZUp(Z(n), 4), Up(OfNat(tol), 4))
    IN  /\ About(ev.miss, 1536, 1536 - ev.pD * ev.share, ev.pD)
        /\ About(ev.one, 1536, ev.pD * ev.share, ev.pD)
        /\ About(ev.ov, 12, ev.share, 1)
        /\ ev.box => About(ev.ab, 12, ev.share, 1)

-----------------------------------------------------------------------------
(* Motion models.  A constant-velocity step of A quarters, however split. *)
CvOK(ev) ==
    LET A == Sum(ev.steps)
        F == [i \in 1..4 |-> [j \in 1..4 |-> IF i = j THEN 4 ELSE IF j = i + 2 THEN A ELSE 0]]
        FP(P, i, j) == Sum([k \in 1..4 |-> F[i][k] * Sum([m \in 1..4 |-> P[k][m] * F[j][m]])])
        Q(i, j) == IF i = j THEN (IF i <= 2 THEN A * A * A ELSE 48 * A) * ev.q
                   ELSE IF i = j + 2 \/ j = i + 2 THEN 6 * A * A * ev.q ELSE 0
        a1 == ev.steps[1]
        wx(k) == Sum([i \in DOMAIN ev.in |-> ev.in[i].w * ev.in[i].x[k]])
    IN  /\ Len(ev.out) = Len(ev.in)
        /\ \A c \in DOMAIN ev.in :
             LET i == ev.in[c] o == ev.out[c] IN
             /\ Is(o.w, 128, i.w, 4, 100)
             /\ \A k \in 1..4 : Is(o.x[k], 4, 4 * i.x[k] + (IF k <= 2 THEN A * i.x[k + 2] ELSE 0), 3, 10000)
             /\ \A j \in 1..4 : \A k \in 1..4 : Is(o.P[j][k], 192, 12 * FP(i.P, j, k) + Q(j, k), 3, 100000)
        \* r = r0 pS^(A/4)
        /\ ~ev.rr.n
        /\ LET R == NMul(NMul(NPow(OfNat(ev.r), 4), NPow(OfNat(ev.pS), A)), Ten(48))
           IN  NLe(NDist(NMul(NMul(NPow(ev.rr.m, 4), NPow(OfNat(128), 4)), NPow(OfNat(128), A)), R), NDivSmall(NDivSmall(R, 1000), 1000))
        /\ \A k \in 1..4 : Is(ev.pr[k], 512, 4 * wx(k) + (IF k <= 2 THEN a1 * wx(k + 2) ELSE 0), 3, 10000)

NmOK(ev) ==
    LET n == Len(ev.steps) IN
    /\ Len(ev.out) = Len(ev.in)
    /\ \A c \in DOMAIN ev.in :
         LET i == ev.in[c] o == ev.out[c] IN
         /\ Is(o.w, 128, i.w, 4, 100)
         /\ \A k \in 1..4 : Is(o.x[k], 1, i.x[k], 3, 10)
         /\ \A j \in 1..4 : \A k \in 1..4 : Is(o.P[j][k], 1, i.P[j][k] + n * ev.Q[j][k], 3, 1000)
    /\ ZIs(ev.rr, NPow(OfNat(128), n + 1), ZN(NMul(OfNat(ev.r), NPow(OfNat(ev.pS), n))), 3, 100)

-----------------------------------------------------------------------------
(* Mixtures.  D: the products of hypothesis and component weight, heaviest first. *)
Desc(s) == SortSeq(s, LAMBDA a, b : a > b)
Distinct(s) == \A i, j \in DOMAIN s : s[i] = s[j] => i = j
Pre(s) == FoldLeft(LAMBDA a, x : Append(a, (IF a = <<>> THEN 0 ELSE a[Len(a)]) + x), <<>>, s)

\* out holds the components whose values (f(id)) are the sequence d, normalised
Holds(out, f, d) ==
    LET tot == Sum(d) IN
    /\ Len(out) = Len(d)
    /\ Distinct([i \in DOMAIN out |-> out[i].id])
    /\ \A i \in DOMAIN out : out[i].id \in DOMAIN f /\ f[out[i].id] = d[i] /\ Is(out[i].w, tot, d[i], 4, 10000)
    /\ Normal([i \in DOMAIN out |-> out[i].w])

JoinOK(ev) ==
    LET all == FlattenSeq([j \in DOMAIN ev.in |-> [i \in DOMAIN ev.in[j] |-> <<ev.in[j][i][1], ev.W[j] * ev.in[j][i][2]>>]])
        f == [id \in {all[i][1] : i \in DOMAIN all} |-> (CHOOSE i \in DOMAIN all : all[i][1] = id)]
        val == [id \in DOMAIN f |-> all[f[id]][2]]
        D == Desc(SelectSeq([i \in DOMAIN all |-> all[i][2]], LAMBDA x : x > 0))
        P == Pre(D)
        Stop(k) == k > ev.max \/ D[k] * 128 < ev.lim * P[k]      \* k is not kept
        n == IF \E k \in DOMAIN D : Stop(k) THEN Min({k \in DOMAIN D : Stop(k)}) - 1 ELSE Len(D)
        heavy == SelectSeq(ev.out, LAMBDA o : o.id \notin DOMAIN val \/ val[o.id] > 0)
    IN  /\ n > 0 => Holds(heavy, val, SubSeq(D, 1, n))
        \* weightless components may follow
        /\ n > 0 => \A i \in DOMAIN ev.out : i > n => val[ev.out[i].id] = 0 /\ ZIsZero(ev.out[i].w)
        /\ Len(ev.out) <= ev.max

PlusOK(ev) ==
    LET all == ev.a \o ev.b
        val == [id \in {all[i][1] : i \in DOMAIN all} |-> LET k == CHOOSE i \in DOMAIN all : all[i][1] = id IN all[k][2]]
        D == Desc(SelectSeq([i \in DOMAIN all |-> all[i][2]], LAMBDA x : x >= ev.lim))
        d == IF Len(D) > ev.max THEN SubSeq(D, 1, ev.max) ELSE D
    IN  /\ ev.kept
        /\ Sum(d) > 0 => Holds(ev.sum, val, d) /\ Holds(ev.inc, val, d) /\ Holds(ev.pruned, val, d)
        /\ d = <<>> => ev.sum = <<>> /\ ev.inc = <<>> /\ ev.pruned = <<>>

\* mean * 128 and covariance * 128^2 of weighted components
Mean128(in, k) == Sum([i \in DOMAIN in |-> in[i].w * in[i].x[k]])
Cov128(in, a, b) == 128 * Sum([i \in DOMAIN in |-> in[i].w * (in[i].P[a][b] + in[i].x[a] * in[i].x[b])]) - Mean128(in, a) * Mean128(in, b)
MomOK(ev) ==
    /\ \A k \in 1..4 : Is(ev.m[k], 128, Mean128(ev.in, k), 3, 1000)
    /\ \A a, b \in 1..4 : Is(ev.C[a][b], 16384, Cov128(ev.in, a, b), 3, 100000)
    /\ ev.pos = SubSeq(ev.m, 1, 2) /\ ev.vel = SubSeq(ev.m, 3, 4)
    /\ \A a, b \in 1..2 : ev.pc[a][b] = ev.C[a][b] /\ ev.vc[a][b] = ev.C[a + 2][b + 2]

-----------------------------------------------------------------------------
(* The density at points.  Each component's normal density over the points,   *)
(* scaled to a total of its share; nothing where it has no mass to speak of   *)
(* (a sum of densities of 10^-7; just there the choice is open).              *)
DensOK(ev) ==
    LET n == Len(ev.pts)
        D == DOMAIN ev.in
        P(c) == [a \in 1..2 |-> [b \in 1..2 |-> ev.in[c].P[a][b]]]
        E == [c \in D |-> [i \in 1..n |-> Exp(Quad2(Adj(P(c)), <<ev.pts[i][1] - ev.in[c].x[1], ev.pts[i][2] - ev.in[c].x[2]>>), 2 * Det(P(c)))]]
        S == [c \in D |-> NSum(E[c])]
        \* S^2 10^14 against 4 pi^2 det, to five digits
        Mass(c) == NMul(NMul(S[c], S[c]), Ten(14))
        Limit(c) == Up(NMul(FourPiSq, OfNat(Det(P(c)))), 12)
        Some(c) == NLt(Limit(c), NSub(Mass(c), NDivSmall(Mass(c), 100000)))
        None(c) == NLt(Mass(c), NSub(Limit(c), NDivSmall(Limit(c), 100000)))
        \* the share of component c in 16384ths, all times over
        Share(c) == ev.times * (IF ev.how = 3 THEN 16384 ELSE IF ev.how = 4 THEN 128 * ev.in[c].w ELSE IF ev.how = 0 THEN 128 * ev.sc ELSE ev.sc * ev.in[c].w)
        Adds(K) ==
            LET all == NProd([k \in 1..Cardinality(K) |-> S[SetToSeq(K)[k]]])
                rest(c) == LET R == SetToSeq(K \ {c}) IN NProd([k \in 1..Len(R) |-> S[R[k]]])
                unit == NMul(OfNat(16384), all)
            IN  \A i \in 1..n :
                  LET sum == FoldSet(LAMBDA c, a : NAdd(a, NMul(NMul(OfNat(Share(c)), E[c][i]), rest(c))), <<>>, K)
                  IN  ZNear(ZMul(ZSub(ZMul(ev.out[i], Z(128)), ZUp(Z(ev.base[i]), 4)), ZN(unit)), ZN(NMulSmall(Up(sum, 4), 128)), NMul(unit, OfNat(10000000)))
    IN  /\ ev.same
        /\ Len(ev.out) = n
        /\ LET sure == {c \in D : Some(c)} open == {c \in D : ~Some(c) /\ ~None(c)}
           IN  \E K \in SUBSET open : Adds(sure \cup K)

-----------------------------------------------------------------------------
(* Particles *)
\* res holds copies of the particles x[i], in number total * v[i] / sum(v) rounded down or up
Copied(res, x, v) ==
    LET n == Len(res) t == Sum(v)
    IN  \A i \in DOMAIN x :
          LET c == Cardinality({k \in DOMAIN res : res[k] = x[i]}) IN c \in {(n * v[i]) \div t, (n * v[i] + t - 1) \div t}
Level(p) == \A i \in DOMAIN p : Is(p[i].w, Len(p), 1, 4, 100)
SameX(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : a[i].x = b[i].x

PfMean128(in, k) == Sum([i \in DOMAIN in |-> in[i].w * in[i].x[k]])
PfCov128(in, a, b) == 128 * Sum([i \in DOMAIN in |-> in[i].w * in[i].x[a] * in[i].x[b]]) - PfMean128(in, a) * PfMean128(in, b)

PfOK(ev) ==
    LET Pd(i) == IF InView(ev.side, ev.in[i].x) THEN ev.pD ELSE 0
        Dz(i) == <<ev.z[1] - ev.in[i].x[1], ev.z[2] - ev.in[i].x[2]>>
        mis == [i \in DOMAIN ev.in |-> ev.in[i].w * (128 - Pd(i))]
        T == Sum(mis)
        xs == [i \in DOMAIN ev.in |-> ev.in[i].x]
        R(p) == [i \in DOMAIN p |-> p[i].x]
    IN  /\ ev.ceta = ev.cor.eta /\ ev.meta = ev.mis.eta
        /\ IF ev.cor.valid
           THEN /\ SameX(ev.cor.p, ev.in) /\ Normal([i \in DOMAIN ev.cor.p |-> ev.cor.p[i].w])
                /\ \A i \in DOMAIN ev.in : Weighs(ev.ceta, ev.cor.p[i].w, ev.in[i].w, Pd(i), ev.R, Dz(i), ev.kap, 0)
           ELSE \A i \in DOMAIN ev.in : Vanishes(ev.in[i].w, Pd(i), ev.R, Dz(i), ev.kap, 0)
        /\ ev.mis.valid = (T > 0)
        /\ Is(ev.meta, 16384, T, 5, 16384)
        /\ T > 0 => /\ SameX(ev.mis.p, ev.in) /\ Normal([i \in DOMAIN ev.mis.p |-> ev.mis.p[i].w])
                    /\ \A i \in DOMAIN ev.in : Is(ev.mis.p[i].w, T, mis[i], 4, 10000)
        /\ \A k \in 1..4 : Is(ev.st.m[k], 128, PfMean128(ev.in, k), 3, 1000)
        /\ \A a, b \in 1..4 : Is(ev.st.C[a][b], 16384, PfCov128(ev.in, a, b), 3, 100000)
        /\ Level(ev.res.p) /\ Copied(R(ev.res.p), xs, [i \in DOMAIN ev.in |-> ev.in[i].w])

PfJoinOK(ev) ==
    LET n == Len(ev.out.p)
        all == FlattenSeq([j \in DOMAIN ev.in |-> [i \in DOMAIN ev.in[j] |-> [x |-> ev.in[j][i].x, v |-> ev.W[j] * ev.in[j][i].w]]])
        D == Desc([i \in DOMAIN all |-> all[i].v])
        t == Sum(SubSeq(D, 1, n))
        cut == D[n]
        C(i) == Cardinality({k \in DOMAIN ev.out.p : ev.out.p[k].x = all[i].x})
        fair(i) == {(n * all[i].v) \div t, (n * all[i].v + t - 1) \div t}
    IN  /\ t > 0 => /\ Level(ev.out.p) /\ ev.out.valid
                    /\ \A i \in DOMAIN all :
                         /\ all[i].v > cut => C(i) \in fair(i)
                         /\ all[i].v = cut => C(i) \in fair(i) \cup {0}
                         /\ all[i].v < cut => C(i) = 0
                    /\ \A k \in DOMAIN ev.out.p : \E i \in DOMAIN all : all[i].x = ev.out.p[k].x
        /\ t = 0 => ~ev.out.valid

-----------------------------------------------------------------------------
(* Boxes *)
\* (x - c)^2 * 16 = a^2 P, x with 3 limbs; c an integer
Reaches(x, c, a, P) ==
    LET d == ZSub(x, ZUp(Z(c), 3))
        R == NMul(Up(OfNat(P), 6), OfNat(a * a))
    IN  ZNear(ZN(NMulSmall(NMul(d.m, d.m), 16)), ZN(R), NDivSmall(NDivSmall(R, 10000), 10000))

\* corners c of a rectangle about m / dm whose half axes u, v are orthogonal and u u' + v v' = (a/4)^2 N / dn
Rect(c, a, m, dm, N, dn) ==
    LET D(i, j, k) == ZSub(c[i][k], c[j][k])
        Mul(i, j, k, i2, j2, k2) == ZMul(D(i, j, k), D(i2, j2, k2))
        tr == NAdd(NMul(Up(OfNat(N[1][1] + N[2][2]), 6), OfNat(a * a)), <<>>)
        tol == NDivSmall(NDivSmall(tr, 10000), 10000)
    IN  /\ \A k \in 1..2 : ZNear(ZMul(ZAdd(c[1][k], c[3][k]), Z(dm)), ZUp(Z(2 * m[k]), 3), <<0, dm>>)
        /\ \A k \in 1..2 : ZNear(ZAdd(c[1][k], c[3][k]), ZAdd(c[2][k], c[4][k]), <<0, 1>>)
        /\ ZNear(ZAdd(Mul(1, 2, 1, 2, 3, 1), Mul(1, 2, 2, 2, 3, 2)), Z(0), tol)
        /\ \A k, j \in 1..2 : ZNear(ZMul(ZAdd(Mul(1, 2, k, 1, 2, j), Mul(2, 3, k, 2, 3, j)), Z(4 * dn)),
                                    ZMul(ZUp(Z(N[k][j]), 6), Z(a * a)), tol)

GaussOK(ev) ==
    /\ ev.same
    /\ \A k \in 1..2 : /\ Reaches(ev.ab[k], ev.x[k], ev.a, ev.P[k][k]) /\ Reaches(ev.ab[k + 2], ev.x[k], ev.a, ev.P[k][k])
                       /\ ZLe(ev.ab[k], ZUp(Z(ev.x[k]), 3)) /\ ZLe(ZUp(Z(ev.x[k]), 3), ev.ab[k + 2])
    /\ Rect(ev.bb, ev.a, ev.x, 1, ev.P, 1)

Beyond(d, a, P) == /\ ZSign(d) >= 0
                   /\ LET R == NMul(Up(OfNat(P), 6), OfNat(a * a))
                      IN  NLe(R, NAdd(NMulSmall(NMul(d.m, d.m), 16), NDivSmall(NDivSmall(R, 10000), 10000)))
MixBoxOK(ev) ==
    /\ \A i \in DOMAIN ev.in : \A k \in 1..2 :
         LET c == ZUp(Z(ev.in[i].x[k]), 3) IN Beyond(ZSub(ev.ab[k + 2], c), ev.a, ev.in[i].P[k][k]) /\ Beyond(ZSub(c, ev.ab[k]), ev.a, ev.in[i].P[k][k])
    /\ Rect(ev.bb, ev.a, <<Mean128(ev.in, 1), Mean128(ev.in, 2)>>, 128,
            [k \in 1..2 |-> [j \in 1..2 |-> Cov128(ev.in, k, j)]], 16384)

Decides(b, in, out) == (in => b = 1) /\ (out => b = 0)
BoxesOK(ev) ==
    LET Pair(A, B, bs) == \A b \in SeqSet(bs) : Decides(b, ShareInterior(A, B), StrictlyApart(A, B))
        Cor(a) == << Min({a[1], a[3]}), Min({a[2], a[4]}), Max({a[1], a[3]}), Max({a[2], a[4]}) >>
        Q(a) == Quad(Cor(a))
        InA(a, p) == LET c == Cor(a) IN c[1] < p[1] /\ p[1] < c[3] /\ c[2] < p[2] /\ p[2] < c[4]
        OutA(a, p) == LET c == Cor(a) IN p[1] < c[1] \/ c[3] < p[1] \/ p[2] < c[2] \/ c[4] < p[2]
    IN  /\ \A i \in 1..2 : \A k \in 1..4 : ev.hull[i][k] = ZUp(Z(Hull(ev.q[i])[k]), 3)
        /\ Pair(ev.q[1], ev.q[2], ev.bb)
        /\ LET c == Cor(ev.a[1]) d == Cor(ev.a[2])
           IN  \A b \in SeqSet(ev.aa) : Decides(b, Overlap(c, d) /\ c[1] < c[3] /\ c[2] < c[4] /\ d[1] < d[3] /\ d[2] < d[4], ~Meets(c, d))
        /\ \A i, j \in 1..2 : Pair(ev.q[i], Q(ev.a[j]), ev.ba[2 * (i - 1) + j])
        /\ \A t \in SeqSet(ev.pts) :
             /\ \A i \in 1..2 : Decides(t.in[i], Inside(ev.q[i], t.p), Outside(ev.q[i], t.p))
             /\ \A i \in 1..2 : Decides(t.in[i + 2], InA(ev.a[i], t.p), OutA(ev.a[i], t.p)) /\ Decides(t.in[i + 4], InA(ev.a[i], t.p), OutA(ev.a[i], t.p))

PointsOK(ev) ==
    LET h == Hull(ev.p) IN \A k \in 1..4 : ev.ab[k] = ZUp(Z(h[k]), 3)

-----------------------------------------------------------------------------
Meaning(ev) ==
    CASE ev.e = "kal" -> KalOK(ev)
      [] ev.e = "see" -> SeeOK(ev)
      [] ev.e = "cv" -> CvOK(ev)
      [] ev.e = "nm" -> NmOK(ev)
      [] ev.e = "join" -> JoinOK(ev)
      [] ev.e = "plus" -> PlusOK(ev)
      [] ev.e = "mom" -> MomOK(ev)
      [] ev.e = "dens" -> DensOK(ev)
      [] ev.e = "pf" -> PfOK(ev)
      [] ev.e = "pfjoin" -> PfJoinOK(ev)
      [] ev.e = "gauss" -> GaussOK(ev)
      [] ev.e = "mixbox" -> MixBoxOK(ev)
      [] ev.e = "boxes" -> BoxesOK(ev)
      [] ev.e = "points" -> PointsOK(ev)
      [] OTHER -> FALSE

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ Meaning(Trace[l]) = TRUE
        /\ l' = l + 1
=============================================================================
