----------------------------- MODULE TrackerTrace -----------------------------
(* Conformance of the tracker, recorded with the accounting density.  The    *)
(* conjuncts of the property named by CHECK are enforced; observed states    *)
(* are adopted.                                                              *)
EXTENDS Tracker, TraceBase

VARIABLES par,      \* limits
          ts,       \* targets by id, as last observed
          used      \* every id ever seen

On(P, x) == (CHECK \in P) => x

Ids(post) == {post[i].id : i \in DOMAIN post}
Of(post) == [id \in Ids(post) |-> (CHOOSE i \in DOMAIN post : post[i].id = id)]
Map(post) == LET f == Of(post) IN [id \in DOMAIN f |-> post[f[id]]]
Listed(post) == Len(post) = Cardinality(Ids(post))

\* the list and the index hold the same targets, each under its current box
Indexed(post, idx) ==
    /\ Listed(post)
    /\ idx.n = Len(post)
    /\ \A q \in SeqSet(idx.q) : IsListOf(q.ids, {post[i].id : i \in {k \in DOMAIN post : Meets(post[k].box, q.b)}})

\* in the geographic frame, with the box of the current density
InPlace(t) == /\ ~t.local
              /\ t.box = <<t.x[1] - t.h[1], t.x[2] - t.h[2], t.x[1] + t.h[1], t.x[2] + t.h[2]>>

CovOK(P) == P[1] * P[1] + P[2] * P[2] <= par.cov_lim * par.cov_lim
Lim == par.r_lim * PPM128

-----------------------------------------------------------------------------
(* Prediction *)
\* r * 128^3 when the existence is a multiple of 1/128
After(t, m, eta) == t.rx * m[5] * eta
Eta(t, etas) == etas[(t.tag % Len(etas)) + 1]
Faded(t, m, eta, x) ==      \* x / 10^9 is the existence after prediction
    LET want == NDivSmall(NDivSmall(NMulSmall(NMulSmall(OfNat(t.r), m[5]), eta), 128), 128)
    IN  NLe(NDist(OfNat(x), want), <<3>>)

PredictOK(ev) ==
    LET post == Map(ev.post)
        Model(t) == [x |-> <<t.x[1] + ev.m[1], t.x[2] + ev.m[2], t.x[3], t.x[4]>>,
                     P |-> [t.P EXCEPT ![1] = @ + 3 * ev.m[4], ![2] = @ + 4 * ev.m[4]]]
        Gone(t) ==      \* must go, may go
            LET e == Eta(t, ev.etas)
                P == Model(t).P
                a == After(t, ev.m, e)
                x == NDivSmall(NDivSmall(NMulSmall(NMulSmall(OfNat(t.r), ev.m[5]), e), 128), 128)
            IN  IF t.rx >= 0
                THEN LET g == a < par.r_lim * 16384 \/ ~CovOK(P) IN <<g, g>>
                ELSE <<NLt(NAdd(x, <<9>>), OfNat(Lim)) \/ ~CovOK(P), NLt(x, OfNat(Lim + 9)) \/ ~CovOK(P)>>
    IN  /\ On({"C09"}, /\ \A id \in DOMAIN ts :
                            LET g == Gone(ts[id]) IN (g[1] => id \notin DOMAIN post) /\ (id \notin DOMAIN post => g[2])
                       /\ DOMAIN post \subseteq DOMAIN ts
                       /\ \A id \in DOMAIN post : post[id].tag = ts[id].tag /\ post[id].t0 = ts[id].t0)
        /\ On({"C11"}, /\ \A id \in DOMAIN ts \ DOMAIN post : Gone(ts[id])[2]
                       /\ IsListOf(ev.modelled, {ts[id].tag : id \in DOMAIN ts})
                       /\ \A id \in DOMAIN post \cap DOMAIN ts :
                            /\ post[id].x = Model(ts[id]).x /\ post[id].P = Model(ts[id]).P
                            /\ Faded(ts[id], ev.m, Eta(ts[id], ev.etas), post[id].r))

-----------------------------------------------------------------------------
(* Correction *)
InFov(box, fov) == ShareInterior(Quad(box), fov)
OutFov(box, fov) == StrictlyApart(Quad(box), fov)

Seq2(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
CandOf(o, tag, rep) == {i \in DOMAIN o.cands : o.cands[i].tag = tag /\ o.cands[i].rep = rep}
MissOf(o, tag) == {i \in DOMAIN o.misses : o.misses[i][1] = tag}
JoinOf(o, tag) == {i \in DOMAIN o.joins : o.joins[i].tag = tag}
The(S) == CHOOSE x \in S : TRUE

\* Option weights of target t (a record) against the reports R (1-based), from the likelihoods used
Weights(o, t, R) ==
    [x \in R \cup {MISS, GONE} |->
        IF x = MISS THEN t.rx * o.misses[The(MissOf(o, t.tag))][2]
        ELSE IF x = GONE THEN (128 - t.rx) * 128
        ELSE t.rx * o.cands[The(CandOf(o, t.tag, x - 1))].l]

WSeq(o, tseq, R) == [i \in DOMAIN tseq |-> Weights(o, ts[tseq[i]], R)]

\* what the correction reports for target t taking option x, or for its existence
JoinW(o, tag, x) == LET j == o.joins[The(JoinOf(o, tag))]
                    IN  IF x = MISS THEN j.miss
                        ELSE LET k == {i \in DOMAIN j.w : j.w[i][1] = x - 1} IN IF k = {} THEN -5 ELSE j.w[The(k)][2]

\* all shares of a group agree with x(i, option, share holds): Test(value, predicate on hypotheses)
GroupShares(o, g, Test(_, _, _)) ==
    LET tseq == Seq2(g[1]) IN
    /\ \A i \in DOMAIN tseq :
         LET tag == ts[tseq[i]].tag IN
         IF JoinOf(o, tag) = {} THEN \A x \in g[2] \cup {MISS} : Test(0, i, x)     \* (below 10^-6 in all)
         ELSE \A x \in g[2] \cup {MISS} : Test(JoinW(o, tag, x), i, x)
    /\ \A j \in g[2] : Test(o.reports[j].rB, 0, j)

\* no limit on hypotheses can cut in
Unlimited(g) == /\ par.wn = 0
                /\ Cardinality(g[1]) <= 6 /\ Cardinality(g[2]) <= 6
                /\ (Cardinality(g[2]) + 2) ^ Cardinality(g[1]) <= par.nh

ExistenceOK(o, post, g) ==      \* existence is the sum of what was joined
    \A id \in g[1] \cap DOMAIN post :
        LET tag == ts[id].tag IN
        IF JoinOf(o, tag) = {} THEN post[id].r = 0
        ELSE Abs(post[id].r - Sum([k \in DOMAIN (o.joins[The(JoinOf(o, tag))].w) |-> o.joins[The(JoinOf(o, tag))].w[k][2]])
                 - JoinW(o, tag, MISS)) <= 5 + Cardinality(g[2])

SharesOK(o, post, g) ==
    IF g[1] = {} THEN \A j \in g[2] : o.reports[j].rB = PPB
    ELSE Unlimited(g) =>
         LET W == WSeq(o, Seq2(g[1]), g[2])
             sh == Shares(W, g[2])
             New(j) == FoldSet(LAMBDA i, a : NSub(a, sh.is[<<i, j>>]), sh.all, DOMAIN W)
             Test(v, i, x) == IF v = 0 /\ i > 0 /\ JoinOf(o, ts[Seq2(g[1])[i]].tag) = {}
                              THEN Near(0, sh.is[<<i, x>>], sh.all, 1010)
                              ELSE Near(v, IF i = 0 THEN New(x) ELSE sh.is[<<i, x>>], sh.all, 3)
         IN  IF sh.all = <<>>       \* no possible hypothesis: only sanity is asked
             THEN \A id \in g[1] \cap DOMAIN post : post[id].r \in 0..PPB
             ELSE GroupShares(o, g, Test) /\ ExistenceOK(o, post, g)

CidOf(o, g) == IF g[2] # {} THEN o.reports[The(g[2])].cid ELSE -1

LimitsOK(o, post, g) ==
    g[1] # {} /\ g[2] # {} =>
    LET W == WSeq(o, Seq2(g[1]), g[2])
        hs == Ranked(W, g[2])
        n == o.cnh[CidOf(o, g) + 1]
        Test(v, i, x) ==
            IF i = 0 THEN Within(hs, n, v, LAMBDA h : \A k \in DOMAIN h : h[k] # x, 4)
            ELSE Within(hs, n, v, LAMBDA h : h[i] = x, IF JoinOf(o, ts[Seq2(g[1])[i]].tag) = {} THEN 1010 ELSE 4)
    IN  /\ n <= par.nh
        /\ hs # <<>> =>
            /\ n \in Taken(hs, par.wn, par.wd, par.nh)
            /\ GroupShares(o, g, Test) /\ ExistenceOK(o, post, g)

GroupsOK(o, post, Gs, play) ==
    LET withReports == {g \in Gs : g[2] # {}}
        alone == {g \in Gs : g[2] = {}}
        n == Cardinality(Gs)
        cids == {CidOf(o, g) : g \in withReports}
    IN  /\ o.ncl = n /\ Len(o.cnt) = n /\ Len(o.cnr) = n /\ Len(o.cnh) = n
        /\ \A g \in withReports : \A j \in g[2] : o.reports[j].cid = CidOf(o, g)
        /\ Cardinality(cids) = Cardinality(withReports) /\ cids \subseteq 0..(n - 1)
        /\ \A g \in withReports : /\ o.cnr[CidOf(o, g) + 1] = Cardinality(g[2])
                                  /\ o.cnt[CidOf(o, g) + 1] = Cardinality(g[1])
                                  /\ \A id \in g[1] \cap DOMAIN post : post[id].cid = CidOf(o, g)
        /\ \A k \in (0..(n - 1)) \ cids : o.cnr[k + 1] = 0 /\ o.cnt[k + 1] = 1
        /\ LET left == {id \in UNION {g[1] : g \in alone} : id \in DOMAIN post} IN
               /\ \A id \in left : post[id].cid \in (0..(n - 1)) \ cids
               /\ \A a, b \in left : a # b => post[a].cid # post[b].cid
        \* reports were matched with the targets of their group only, all of them
        /\ \A k \in DOMAIN o.cands : \E g \in Gs : o.cands[k].rep + 1 \in g[2] /\ \E t \in g[1] : ts[t].tag = o.cands[k].tag

UpdatesOK(o, post, Gs, play) ==
    /\ \A id \in DOMAIN ts \ play : id \in DOMAIN post /\ post[id] = ts[id]
    /\ \A id \in DOMAIN ts : Cardinality(MissOf(o, ts[id].tag)) = IF id \in play THEN 1 ELSE 0
    /\ \A g \in Gs : \A t \in g[1], j \in DOMAIN o.reports :
            Cardinality(CandOf(o, ts[t].tag, j - 1)) = IF j \in g[2] THEN 1 ELSE 0
    /\ \A id \in DOMAIN ts : Cardinality(JoinOf(o, ts[id].tag)) <= IF id \in play THEN 1 ELSE 0
    /\ Len(o.misses) = Cardinality(play)

\* Removed exactly when not viable afterwards
LifeOK(ev, o, post, Gs, play) ==
    LET newIds == DOMAIN post \ DOMAIN ts
        Big(v) == 25 * v * v > par.cov_lim * par.cov_lim
        Options(g, t) ==        \* shapes the joined density may have: those of the largest share
            LET opts == g[2] \cup {MISS}
                w == [x \in opts |-> JoinW(o, ts[t].tag, x)]
                top == Max({w[x] : x \in opts})
            IN  {x \in opts : w[x] >= top - 2}
        BigOption(g, t, x) == IF x = MISS THEN ~CovOK(ts[t].P) ELSE Big(ev.in[x].evar)
        Total(g, t) == JoinW(o, ts[t].tag, MISS) + Sum([k \in 1..Cardinality(g[2]) |-> JoinW(o, ts[t].tag, Seq2(g[2])[k])])
    IN  /\ newIds \cap used = {}
        /\ \A id \in DOMAIN ts \cap DOMAIN post : post[id].tag = ts[id].tag /\ post[id].t0 = ts[id].t0
        /\ DOMAIN ts \ play \subseteq DOMAIN post
        /\ \A g \in Gs : \A t \in g[1] :
             IF Cardinality(MissOf(o, ts[t].tag)) # 1 \/ (\E j \in g[2] : Cardinality(CandOf(o, ts[t].tag, j - 1)) # 1) THEN TRUE  \* (C10)
             ELSE IF t \in DOMAIN post THEN post[t].r >= Lim - 1 /\ CovOK(post[t].P)
             ELSE IF JoinOf(o, ts[t].tag) = {} THEN Lim > 0 \/ ~CovOK(ts[t].P)
             ELSE Total(g, t) < Lim + 20 \/ \E x \in Options(g, t) : BigOption(g, t, x)

BirthsOK(ev, o, post) ==
    LET born == DOMAIN post \ DOMAIN ts
        rs == o.reports
        sum == FoldLeft(LAMBDA a, z : NAdd(a, OfNat(z.rB)), <<>>, rs)
        exact == \A j \in DOMAIN rs : rs[j].one
        N == Len(rs)
        \* share of report j against the limit L / 128: -1 below, 0 too close to tell, 1 reached
        Against(j, L) ==
            IF exact THEN IF ev.lam >= L * N THEN 1 ELSE -1
            ELSE LET a == NMul(OfNat(rs[j].rB), OfNat(ev.lam)) b == NMul(sum, OfNat(L))
                 IN  IF NLe(NDist(a, b), NMul(OfNat(N + 1), OfNat(300))) THEN 0 ELSE IF NLt(a, b) THEN -1 ELSE 1
        enough == IF exact THEN IF N * 128 >= par.r_lim THEN 1 ELSE -1
                  ELSE IF NLe(NDist(sum, OfNat(Lim)), OfNat(N + 1)) THEN 0 ELSE IF NLt(sum, OfNat(Lim)) THEN -1 ELSE 1
        Want(j) == IF enough = -1 THEN -1 ELSE IF enough = 0 /\ Against(j, par.r_lim) = 1 THEN 0 ELSE Against(j, par.r_lim)
        \* target b is the newborn of report j
        From(b, j) ==
            /\ post[b].x = <<ev.in[j].x[1], ev.in[j].x[2], 0, 0>>
            /\ post[b].P = <<ev.in[j].P[1], ev.in[j].P[2], ev.pv[1], ev.pv[2], ev.in[j].P[3], 0, 0>>
            /\ post[b].t0 = ev.time
            /\ post[b].cid = rs[j].cid
            /\ IF Against(j, par.rB_max) = 1 THEN Abs(post[b].r - par.rB_max * PPM128) <= 1
               ELSE NLe(NDist(NMul(NMul(OfNat(post[b].r), sum), OfNat(128)), NMul(NMul(OfNat(rs[j].rB), OfNat(ev.lam)), OfNat(PPB))),
                        NMul(NAdd(NMul(sum, <<4>>), NMul(OfNat(rs[j].rB), OfNat(4 * N))), OfNat(128 + ev.lam)))
    IN  IF N = 0 THEN born = {}
        ELSE /\ Cardinality({j \in DOMAIN rs : Want(j) = 1}) <= Cardinality(born)
             /\ Cardinality(born) <= Cardinality({j \in DOMAIN rs : Want(j) >= 0})
             /\ \A j \in DOMAIN rs : Want(j) = 1 => \E b \in born : From(b, j)
             /\ \A b \in born : \E j \in DOMAIN rs : Want(j) >= 0 /\ From(b, j)
             \* as many newborns as equal reports
             /\ \A j \in DOMAIN rs : Want(j) = 1 =>
                    Cardinality({b \in born : From(b, j)}) >= Cardinality({k \in DOMAIN rs : Want(k) = 1 /\ ev.in[k] = ev.in[j] /\ rs[k].cid = rs[j].cid /\ rs[k].rB = rs[j].rB})

FramesOK(o, post) ==
    /\ \A id \in DOMAIN post : InPlace(post[id])
    /\ \A j \in DOMAIN o.reports : ~o.reports[j].local
    /\ \A k \in DOMAIN o.cands : o.cands[k].local
    /\ \A k \in DOMAIN o.joins : o.joins[k].local

CorrectOK(ev) ==
    LET o == ev.o
        post == Map(o.post)
        bt == [id \in DOMAIN ts |-> ts[id].box]
        br == [j \in DOMAIN ev.in |-> ev.in[j].box]
        \* touching the field of view only: as the correction had it
        selected == {id \in DOMAIN ts : InFov(bt[id], ev.fov)
                                        \/ (~OutFov(bt[id], ev.fov) /\ MissOf(o, ts[id].tag) # {})}
        Gs == Groups(bt, br, selected)
        play == UNION {g[1] : g \in Gs}
        wellMatched == \A g \in Gs : \A t \in g[1] :
                            /\ Cardinality(MissOf(o, ts[t].tag)) = 1
                            /\ \A j \in g[2] : Cardinality(CandOf(o, ts[t].tag, j - 1)) = 1
    IN  /\ On({"C05"}, GroupsOK(o, post, Gs, play))
        /\ On({"C06"}, /\ wellMatched /\ \A g \in Gs : SharesOK(o, post, g))
        /\ On({"C07"}, /\ wellMatched /\ \A g \in Gs : LimitsOK(o, post, g))
        /\ On({"C08"}, BirthsOK(ev, o, post))
        /\ On({"C09"}, LifeOK(ev, o, post, Gs, play))
        /\ On({"C10"}, UpdatesOK(o, post, Gs, play))
        /\ On({"C22"}, /\ FramesOK(o, post)
                       /\ \A j \in DOMAIN ev.in : o.reports[j].x = ev.in[j].x /\ o.reports[j].P = ev.in[j].P)

-----------------------------------------------------------------------------
(* The same scan whole, and each group alone *)
SameTarget(a, b) == Abs(a.r - b.r) <= 2 /\ a.x = b.x /\ a.P = b.P /\ a.box = b.box /\ a.tag = b.tag
TwinOK(ev) ==
    \A p \in SeqSet(ev.parts) :
        /\ \A z \in SeqSet(p.reports) : \E y \in SeqSet(ev.whole.reports) : y.rep = z.rep /\ Abs(y.rB - z.rB) <= 2
        /\ \A j \in SeqSet(p.joins) :
             \E k \in SeqSet(ev.whole.joins) :
                /\ k.tag = j.tag /\ Abs(k.miss - j.miss) <= 2 /\ Len(k.w) = Len(j.w)
                /\ \A x \in SeqSet(j.w) : \E y \in SeqSet(k.w) : x[1] = y[1] /\ Abs(x[2] - y[2]) <= 2
        /\ \A t \in SeqSet(p.post) : \E u \in SeqSet(ev.whole.post) : SameTarget(t, u)

-----------------------------------------------------------------------------
(* Queries *)
SummariesOK(sum, S) ==
    /\ Len(sum) = Cardinality(S) /\ {sum[i].id : i \in DOMAIN sum} = S
    /\ \A i \in DOMAIN sum : LET t == ts[sum[i].id] IN
            /\ sum[i].r = t.r /\ sum[i].cid = t.cid /\ sum[i].x = t.x /\ sum[i].P = t.P
CountOK(n, S, th) ==        \* th in 1/128
    /\ n >= Cardinality({id \in S : IF ts[id].rx >= 0 THEN ts[id].rx >= th ELSE ts[id].r > th * PPM128})
    /\ n <= Cardinality({id \in S : IF ts[id].rx >= 0 THEN ts[id].rx >= th ELSE ts[id].r >= th * PPM128})
AnswerOK(a, S) ==
    /\ SummariesOK(a.sum, S)
    /\ Abs(a.enof * 100 - Sum([i \in 1..Cardinality(S) |-> ts[Seq2(S)[i]].r \div 10])) <= 60 + Cardinality(S)
    /\ \A i \in DOMAIN a.nof : CountOK(a.nof[i], S, 8 * (i - 1))
    \* the default threshold is 0.7
    /\ a.nofd >= Cardinality({id \in S : ts[id].r > 700000000})
    /\ a.nofd <= Cardinality({id \in S : ts[id].r >= 700000000})
QueriesOK(ev) ==
    /\ AnswerOK(ev.all, DOMAIN ts)
    /\ \A q \in SeqSet(ev.reg) : AnswerOK(q, {id \in DOMAIN ts : Meets(ts[id].box, q.b)})
    /\ Map(ev.post) = ts

-----------------------------------------------------------------------------
Adopt(post) == /\ ts' = Map(post)
               /\ used' = used \cup Ids(post)
               /\ par' = par

Step(ev) ==
    CASE ev.e = "new" -> par' = ev /\ ts' = <<>> /\ used' = {}
      [] ev.e = "added" -> /\ (On({"C09"}, /\ Indexed(ev.post, ev.idx)
                                           /\ DOMAIN ts \subseteq Ids(ev.post)
                                           /\ Cardinality(Ids(ev.post)) = Cardinality(DOMAIN ts) + 1
                                           /\ (Ids(ev.post) \ DOMAIN ts) \cap used = {})
                               /\ On({"C22"}, \A t \in SeqSet(ev.post) : InPlace(t))) = TRUE
                           /\ Adopt(ev.post)
      [] ev.e = "poke" -> Adopt(ev.post)
      [] ev.e = "predict" -> /\ (/\ PredictOK(ev) /\ On({"C09"}, Indexed(ev.post, ev.idx))
                                 /\ On({"C22"}, \A t \in SeqSet(ev.post) : InPlace(t))) = TRUE
                             /\ Adopt(ev.post)
      [] ev.e = "correct" -> /\ (CorrectOK(ev) /\ On({"C09"}, Indexed(ev.o.post, ev.idx))) = TRUE
                             /\ Adopt(ev.o.post)
      [] ev.e = "twin" -> /\ On({"C10"}, TwinOK(ev) /\ Map(ev.post) = ts) = TRUE
                          /\ UNCHANGED <<par, ts, used>>
      [] ev.e = "queries" -> /\ (On({"C14"}, QueriesOK(ev)) /\ On({"C09"}, Indexed(ev.post, ev.idx))) = TRUE
                             /\ Adopt(ev.post)
      [] OTHER -> FALSE

Init == l = 1 /\ par = [r_lim |-> 0] /\ ts = <<>> /\ used = {}
Next == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
=============================================================================
