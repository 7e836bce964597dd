------------------------------- MODULE GeoTrace -------------------------------
(* Conformance of the tracker in geographic coordinates.  Positions and boxes *)
(* are offsets from a reference place in 10^-9 degrees, covariances 10^-3 m^2, *)
(* velocities 10^-6 m/s, weights and probabilities 10^-9.                      *)
EXTENDS Numbers, TraceBase, TLC

VARIABLES ts,       \* the targets, as last observed
          loc,      \* where the reference is
          dens      \* mixtures or particles

-----------------------------------------------------------------------------
(* Metres in a degree north and east of the reference places. *)
PerDeg == << <<110574, 111320>>, <<110852, 96486>>, <<111132, 78847>>, <<111412, 55800>>, <<110852, 96486>> >>
M(k) == PerDeg[loc + 1][k]
\* an offset in 10^-9 m
Nano(x, k) == ZMul(Z(x), Z(M(k)))
Abs(i) == IF i < 0 THEN -i ELSE i
Close(a, b, tol) == Abs(a - b) <= tol
CloseAll(a, b, tol) == \A k \in DOMAIN a : Close(a[k], b[k], tol)
Cm == OfNat(10000000)      \* in 10^-9 m

-----------------------------------------------------------------------------
(* The region of a target is that of its current density. *)
\* 16 d^2 / (a^2 P) between lo and hi percent, d an offset along axis k
Between(d, k, P, lo, hi) ==
    LET X == NMulSmall(NMul(Nano(d, k).m, Nano(d, k).m), 1600)
        R == NMul(NMulSmall(OfNat(P), dens.a * dens.a), Ten(15))
    IN  NLe(NMulSmall(R, lo), X) /\ (hi > 0 => NLe(X, NMulSmall(R, hi)))

\* moments, weights adding up to 10^9, in 10^-9 m (and times 10^9)
MeanOf(c, k) == ZSum([i \in DOMAIN c |-> ZMul(Z(c[i].w), Nano(c[i].x[k], k))])
SecondOf(c, k, j, P(_, _, _)) ==     \* times 10^18 * 10^18
    ZSub(ZMul(ZSum([i \in DOMAIN c |-> ZMul(Z(c[i].w), ZAdd(ZMul(Nano(c[i].x[k], k), Nano(c[i].x[j], j)), P(i, k, j)))]), ZN(Ten(9))),
         ZMul(MeanOf(c, k), MeanOf(c, j)))

BoxOK(t) ==
    LET n == Len(t.c)
        P(i, k, j) == IF dens.particles THEN Z(0)
                      ELSE ZMul(Z(IF k # j THEN t.c[i].P[2] ELSE IF k = 1 THEN t.c[i].P[1] ELSE t.c[i].P[3]), ZN(Ten(15)))
        D(i, j, k) == ZSub(Nano(t.bb[i][k], k), Nano(t.bb[j][k], k))
        \* 4 nstd^2 cov = (a/2)^2 cov
        Side(k, j) == ZAdd(ZMul(D(1, 2, k), D(1, 2, j)), ZMul(D(2, 3, k), D(2, 3, j)))
        C(k, j) == SecondOf(t.c, k, j, P)
        tr == ZAdd(C(1, 1), C(2, 2))
        tol == NDivSmall(NMulSmall(tr.m, dens.a * dens.a), 100)
    IN  \* the rotated box is a rectangle about the mean, spanned by the axes of the covariance
        /\ \A k \in 1..2 : ZNear(ZMul(ZAdd(Nano(t.bb[1][k], k), Nano(t.bb[3][k], k)), ZN(Ten(9))), ZMul(Z(2), MeanOf(t.c, k)), NMul(Cm, Ten(9)))
        /\ \A k \in 1..2 : Close(t.bb[1][k] + t.bb[3][k], t.bb[2][k] + t.bb[4][k], 20000)
        /\ \A k, j \in 1..2 : ZNear(ZMul(ZMul(Side(k, j), Z(4)), ZN(Ten(18))), ZMul(C(k, j), Z(dens.a * dens.a)), tol)
        \* the other contains every component's box and is no larger (or is the hull of the rotated one)
        /\ \A k \in 1..2 :
             IF dens.particles
             THEN /\ Close(t.box[k], Min({t.bb[i][k] : i \in 1..4}), 1000)
                  /\ Close(t.box[k + 2], Max({t.bb[i][k] : i \in 1..4}), 1000)
             ELSE LET Pk(i) == IF k = 1 THEN t.c[i].P[1] ELSE t.c[i].P[3] IN
                  /\ \A i \in 1..n : /\ t.c[i].x[k] - t.box[k] >= 0 /\ Between(t.c[i].x[k] - t.box[k], k, Pk(i), 98, 0)
                                     /\ t.box[k + 2] - t.c[i].x[k] >= 0 /\ Between(t.box[k + 2] - t.c[i].x[k], k, Pk(i), 98, 0)
                  /\ \E i \in 1..n : Between(t.c[i].x[k] - t.box[k], k, Pk(i), 98, 102)
                  /\ \E i \in 1..n : Between(t.box[k + 2] - t.c[i].x[k], k, Pk(i), 98, 102)

Boxes(post) == \A i \in DOMAIN post : BoxOK(post[i])

-----------------------------------------------------------------------------
(* Prediction: the same targets, each where its motion takes it. *)
Paired(pre, post) == /\ Len(pre) = Len(post)
                     /\ \A i \in DOMAIN pre : \E j \in DOMAIN post : post[j].id = pre[i].id
With(id, s) == s[CHOOSE j \in DOMAIN s : s[j].id = id]

NmOK(ev) ==
    /\ Paired(ev.pre, ev.post)
    /\ \A i \in DOMAIN ev.pre :
         LET t == ev.pre[i] u == With(t.id, ev.post) IN
         /\ u.r = t.r /\ u.cid = t.cid
         /\ Len(u.c) = Len(t.c)
         /\ \A j \in DOMAIN t.c :
              /\ CloseAll(u.c[j].x, t.c[j].x, 20 * ev.k)
              /\ u.c[j].v = t.c[j].v /\ u.c[j].w = t.c[j].w
              /\ ~dens.particles => CloseAll(u.c[j].P, << t.c[j].P[1] + ev.k * ev.qn * 1000, t.c[j].P[2], t.c[j].P[3] + ev.k * ev.qe * 1000 >>, 5)

CvOK(ev) ==
    /\ Paired(ev.pre, ev.post)
    /\ \A i \in DOMAIN ev.pre :
         LET t == ev.pre[i] u == With(t.id, ev.post) IN
         /\ Len(u.c) = Len(t.c)
         /\ \A j \in DOMAIN t.c :
              /\ CloseAll(u.c[j].v, t.c[j].v, 1) /\ u.c[j].w = t.c[j].w
              /\ \A k \in 1..2 :
                   LET want == ZMul(Z(t.c[j].v[k]), Z(1000 * ev.k))
                       d1 == ZMul(Z(t.c[j].v[1]), Z(1000 * ev.k)) d2 == ZMul(Z(t.c[j].v[2]), Z(1000 * ev.k))
                   IN  ZNear(Nano(u.c[j].x[k] - t.c[j].x[k], k), want, NAdd(Cm, NDivSmall(NAdd(d1.m, d2.m), 100)))

-----------------------------------------------------------------------------
(* Correction *)
Apart(a, b) == a[3] < b[1] \/ b[3] < a[1] \/ a[4] < b[2] \/ b[4] < a[2]

\* out is where the report z takes the component c: x + P (P + R)^-1 (z - x)
Drawn(out, c, z) ==
    LET S == [i \in 1..3 |-> Z(c.P[i] + z.P[i])]
        det == ZSub(ZMul(S[1], S[3]), ZMul(S[2], S[2]))
        d == [k \in 1..2 |-> Nano(z.x[k] - c.x[k], k)]
        u == << ZSub(ZMul(S[3], d[1]), ZMul(S[2], d[2])), ZSub(ZMul(S[1], d[2]), ZMul(S[2], d[1])) >>
        tol == NMul(det.m, NAdd(Cm, NDivSmall(NAdd(d[1].m, d[2].m), 200)))
        At(k, a, b) == ZNear(ZMul(Nano(out.x[k] - c.x[k], k), det), ZAdd(ZMul(Z(a), u[1]), ZMul(Z(b), u[2])), tol)
    IN  At(1, c.P[1], c.P[2]) /\ At(2, c.P[2], c.P[3])
Stayed(out, c) == CloseAll(out.x, c.x, 20) /\ CloseAll(out.P, c.P, 5) /\ CloseAll(out.v, c.v, 1)

ScanOK(ev) ==
    LET old == {ev.pre[i].id : i \in DOMAIN ev.pre}
        Aside(t) == Apart(t.box, ev.fov) /\ \A j \in DOMAIN ev.rpre : Apart(t.box, ev.rpre[j].box)
    IN  \* reports come back
        /\ Len(ev.rpost) = Len(ev.rpre)
        /\ \A j \in DOMAIN ev.rpre : CloseAll(ev.rpost[j].x, ev.rpre[j].x, 20) /\ ev.rpost[j].P = ev.rpre[j].P /\ CloseAll(ev.rpost[j].box, ev.rpre[j].box, 100)
        \* who has no part is untouched
        /\ \A i \in DOMAIN ev.pre : Aside(ev.pre[i]) => \E j \in DOMAIN ev.post : ev.post[j] = ev.pre[i]
        \* every component of the others stayed, or went where a report draws it
        /\ \A i \in DOMAIN ev.post : ev.post[i].id \in old =>
             LET t == With(ev.post[i].id, ev.pre) IN
             \A g \in DOMAIN ev.post[i].c : \E h \in DOMAIN t.c :
                LET o == ev.post[i].c[g] IN
                Stayed(o, t.c[h]) \/ \E j \in DOMAIN ev.rpre : (ev.pD > 0 /\ Drawn(o, t.c[h], ev.rpre[j]))
        \* newborns are where their reports are
        /\ \A i \in DOMAIN ev.post : ev.post[i].id \notin old =>
             /\ Len(ev.post[i].c) = 1
             /\ \E j \in DOMAIN ev.rpre : LET o == ev.post[i].c[1] z == ev.rpre[j] IN
                  CloseAll(o.x, z.x, 20) /\ CloseAll(o.P, z.P, 1) /\ o.v = <<0, 0>>

-----------------------------------------------------------------------------
(* The density map.  With mode 0 every component is well inside a cell, or     *)
(* well outside the region.                                                    *)
PhdOK(ev) ==
    LET b == [k \in 1..4 |-> ev.box[k] \div 16]
        size == <<ev.nx, ev.ny>>
        Cell(x) == [k \in 1..2 |-> ((x[k] \div 16 - b[k]) * size[k]) \div (b[k + 2] - b[k])]
        part(t, g) == ((t.r \div 1000) * (g.w \div 1000000)) \div 10        \* in 10^-8
        Here(i, j) == Sum([n \in DOMAIN ev.pre |->
                        Sum([g \in DOMAIN ev.pre[n].c |-> IF Cell(ev.pre[n].c[g].x) = <<i - 1, j - 1>> THEN part(ev.pre[n], ev.pre[n].c[g]) ELSE 0])])
        \* the rounding of 1000 samples into components; there are no others here
        Slack(i, j) == Sum([n \in DOMAIN ev.pre |->
                         LET k == Len(ev.pre[n].c) IN
                         IF k > 1 /\ \E g \in 1..k : Cell(ev.pre[n].c[g].x) = <<i - 1, j - 1>> THEN (k + 1) * (ev.pre[n].r \div 9000) ELSE 0])
        t == ev.pre[1]
        r8 == t.r \div 1000        \* shares are in 10^-2: times r8 is 10^-8
        Row(i) == Sum(ev.m[i])
        Col(j) == Sum([i \in DOMAIN ev.m |-> ev.m[i][j]])
        Share(x, pct, tol) == Close(x, pct * r8, tol * r8)
        \* a normal distribution over steps of one standard deviation from the mean
        Normal4 == <<14, 34, 34, 14>>
    IN  /\ Len(ev.m) = ev.nx /\ \A i \in DOMAIN ev.m : Len(ev.m[i]) = ev.ny
        /\ ev.spread = 0 =>
             \A i \in 1..ev.nx : \A j \in 1..ev.ny : Close(ev.m[i][j], Here(i, j), 100 + 300 * Len(ev.pre) + Slack(i, j))
        \* correlation +-sqrt(3)/2 over quadrants: 5/12 and 1/12
        /\ ev.spread \in {1, 2} =>
             \A i, j \in 1..2 : Share(ev.m[i][j], IF (i = j) = (ev.spread = 1) THEN 42 ELSE 8, 8)
        \* cells of one standard deviation, different north and east
        /\ ev.spread = 3 => /\ \A i \in 1..4 : Share(Row(i), (Normal4[i] * 95) \div 100, 9) /\ Share(Col(i), (Normal4[i] * 95) \div 100, 9)
                            /\ \A i, j \in 1..4 : Share(ev.m[i][j], (Normal4[i] * Normal4[j]) \div 100, 7)

-----------------------------------------------------------------------------
(* OSPA and GOSPA.  Targets and truths at whole metres; either p is even or    *)
(* they are on a line.                                                         *)
MetricOK(ev) ==
    LET A == DOMAIN ev.ts B == DOMAIN ev.qs
        d2(i, j) == (ev.ts[i][1] - ev.qs[j][1]) * (ev.ts[i][1] - ev.qs[j][1]) + (ev.ts[i][2] - ev.qs[j][2]) * (ev.ts[i][2] - ev.qs[j][2])
        near(i, j) == d2(i, j) < ev.c * ev.c
        dp(i, j) == IF ev.p % 2 = 0 THEN IPow(d2(i, j), ev.p \div 2) ELSE IPow(Abs(ev.ts[i][1] - ev.qs[j][1]), ev.p)
        cp == IPow(ev.c, ev.p)
        gain == [i \in A |-> [j \in {k \in B : near(i, k)} |-> cp - dp(i, j)]]
        RECURSIVE Reach(_, _)
        Reach(I, J) == LET J2 == J \cup UNION {DOMAIN gain[i] : i \in I}
                           I2 == I \cup {i \in A : DOMAIN gain[i] \cap J2 # {}}
                       IN  IF I2 = I /\ J2 = J THEN I ELSE Reach(I2, J2)
        RECURSIVE Best(_, _)
        Best(I, J) ==     \* the most that matching I within J gains
            IF I = {} THEN 0
            ELSE LET i == CHOOSE x \in I : TRUE
                     R == I \ {i}
                 IN  Max({Best(R, J)} \cup {gain[i][j] + Best(R, J \ {j}) : j \in J \cap DOMAIN gain[i]})
        groups == {Reach({i}, {}) : i \in A}
        G == FoldSet(LAMBDA I, a : a + Best(I, B), 0, groups)
        m == Len(ev.ts) q == Len(ev.qs) n == IF m > q THEN m ELSE q
        total == n * cp - G
        \* metres from degrees: a thousandth of every distance
        tol == NAdd(NMul(NMul(OfNat(n * ev.p * cp), Ten(8 * ev.p)), <<1>>), <<>>)
        Is1000(s, times, want) == /\ ~s.n
                                  /\ ZNear(ZN(NMulSmall(NMul(NPow(s.m, ev.p), OfNat(times)), 1000)),
                                           ZMul(Z(want), ZN(NMul(Ten(8 * ev.p), OfNat(1000)))), tol)
    IN  IF n = 0 THEN \A s \in 1..3 : ZIsZero(ev.ospa[s]) /\ ZIsZero(ev.gospa[s])
        ELSE \A s \in 1..3 :
               /\ Is1000(ev.ospa[s], n, total)
               /\ Is1000(ev.gospa[s], 2, (m + q) * cp - 2 * G)

-----------------------------------------------------------------------------
On(P, x) == (CHECK \in P) => x

Meaning(ev) ==
    CASE ev.e = "new" -> TRUE
      [] ev.e = "added" -> On({"C22"}, Boxes(ev.post))
      [] ev.e = "nm" -> ev.pre = ts /\ On({"C22"}, NmOK(ev) /\ Boxes(ev.post))
      [] ev.e = "cv" -> ev.pre = ts /\ On({"C22"}, CvOK(ev) /\ Boxes(ev.post))
      [] ev.e = "scan" -> ev.pre = ts /\ On({"C22"}, ScanOK(ev) /\ Boxes(ev.post))
      [] ev.e = "phd" -> ev.pre = ts /\ On({"C16"}, PhdOK(ev)) /\ On({"C14"}, ev.before = ev.after)
      [] ev.e = "metric" -> On({"C15"}, MetricOK(ev)) /\ On({"C14"}, ev.before = ev.after)
      [] OTHER -> FALSE

Init == l = 1 /\ ts = <<>> /\ loc = 0 /\ dens = [a |-> 0, particles |-> FALSE]
Next == /\ l <= Len(Trace)
        /\ LET ev == Trace[l] IN
           /\ Meaning(ev) = TRUE
           /\ ts' = (IF ev.e = "new" THEN <<>> ELSE IF "post" \in DOMAIN ev THEN ev.post ELSE ts)
           /\ loc' = (IF ev.e = "new" THEN ev.loc ELSE loc)
           /\ dens' = (IF ev.e = "new" THEN [a |-> ev.a, particles |-> ev.particles] ELSE dens)
        /\ l' = l + 1
=============================================================================
