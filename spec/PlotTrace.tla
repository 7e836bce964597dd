------------------------------- MODULE PlotTrace -------------------------------
(* Conformance of the plots (lmb/plot.py, lmb/application.py, clmb.py).  An event *)
(* holds what was to be shown and the artists found on the axes: their points as   *)
(* (north, east) in metres with three limbs behind the point, and their colours.   *)
(* The colours that keys (identifiers or group numbers) have been given are         *)
(* remembered: the same key looks the same in every plot, different keys differ.    *)
EXTENDS Numbers, TraceBase
VARIABLE hue

Close(p, q) == \A k \in 1..2 : ZNear(p[k], q[k], <<0, 100>>)                    \* a micrometre
Around(p, q) == \A k \in 1..2 : ZNear(p[k], q[k], Up(OfNat(60), 3))

\* ---- what is to be shown
Final(ev) == IF ev.hist = <<>> THEN <<>> ELSE ev.hist[Len(ev.hist)]
Shown(ev) == SelectSeq(Final(ev), LAMBDA t : t.r >= ev.to.min)
Path(ev, id) == FoldLeft(LAMBDA a, s : a \o [k \in 1..Len(SelectSeq(s, LAMBDA t : t.id = id)) |-> SelectSeq(s, LAMBDA t : t.id = id)[k].at], <<>>, ev.hist)
TKey(ev, t) == ev.to.c + (IF ev.to.cc THEN t.cid ELSE t.id)
RKey(ev, k) == ev.so.c + (IF ev.so.cc THEN ev.reps[k].cid ELSE k - 1)

\* ---- covariance ellipses: every point of the drawing is at nstd standard deviations
OnEllipse(p, c, P, nstd) ==
    LET n == ZSub(p[1], c[1]) e == ZSub(p[2], c[2])
        q == ZSum(<< ZMul(ZMul(e, e), P[1][1]), ZMul(Z(-2), ZMul(ZMul(n, e), P[1][2])), ZMul(ZMul(n, n), P[2][2]) >>)
        d == ZSub(ZMul(P[1][1], P[2][2]), ZMul(P[1][2], P[1][2]))
        tr == ZAdd(P[1][1], P[2][2])
    IN  ZNear(q, ZUp(ZMul(Z(nstd * nstd), d), 6), Up(NAdd(<<1>>, NMul(tr.m, NAdd(tr.m, <<1>>))), 4))
Ellipse(pts, c, P, nstd) == Len(pts) >= 5 /\ \A k \in DOMAIN pts : OnEllipse(pts[k], c, P, nstd)

\* ---- boxes: the same polygon, from any corner either way round
Same4(a, b) == Len(a) = 4 /\ Len(b) = 4
    /\ \E s \in 0..3, d \in {1, 3} : \A k \in 0..3 : Close(a[k + 1], b[((s + (d * k)) % 4) + 1])

\* ---- the artists, each kind both ways
Count(n, s) == Len(s) = n
Bit(b) == IF b THEN 1 ELSE 0
LinesOK(ev) ==
    LET T == Shown(ev) IN
    /\ Count(Len(T), ev.got.lines)
    /\ \A i \in DOMAIN T : \E k \in DOMAIN ev.got.lines :
        LET p == Path(ev, T[i].id) g == ev.got.lines[k] IN
        Len(g.pts) = Len(p) /\ (\A j \in DOMAIN p : Close(g.pts[j], p[j])) /\ g.c = hue'[TKey(ev, T[i])]
MarksOK(ev) ==
    LET T == Shown(ev) S == SelectSeq(ev.got.marks, LAMBDA g : g.m = "s") Q == SelectSeq(ev.got.marks, LAMBDA g : g.m = "+") IN
    /\ Len(S) + Len(Q) = Len(ev.got.marks)
    /\ Count(Len(T), S) /\ \A i \in DOMAIN T : \E k \in DOMAIN S : Len(S[k].pts) = 1 /\ Close(S[k].pts[1], T[i].at) /\ S[k].c = hue'[TKey(ev, T[i])]
    /\ Count(Len(ev.reps), Q) /\ \A i \in DOMAIN ev.reps : \E k \in DOMAIN Q : Len(Q[k].pts) = 1 /\ Close(Q[k].pts[1], ev.reps[i].at)
EllOf(ev, g, i) == LET t == Shown(ev)[i] IN ev.to.ell /\ Ellipse(g.pts, t.at, t.P, 2) /\ hue'[TKey(ev, t)] \in {g.face, g.edge}
EllOfRep(ev, g, i) == LET r == ev.reps[i] IN ev.so.ell /\ Ellipse(g.pts, r.at, r.P, 2) /\ hue'[RKey(ev, i)] \in {g.face, g.edge}
EllsOK(ev) ==
    LET T == Shown(ev) E == ev.got.ells IN
    /\ \A k \in DOMAIN E : (\E i \in DOMAIN T : EllOf(ev, E[k], i)) \/ (\E i \in DOMAIN ev.reps : EllOfRep(ev, E[k], i))
    /\ ev.to.ell => \A i \in DOMAIN T : \E k \in DOMAIN E : EllOf(ev, E[k], i)
    /\ ev.so.ell => \A i \in DOMAIN ev.reps : \E k \in DOMAIN E : EllOfRep(ev, E[k], i)
PolysOK(ev) ==
    LET T == Shown(ev) G == ev.got.polys IN
    /\ Count((Len(T) * Bit(ev.to.box)) + (Len(ev.reps) * Bit(ev.so.box)) + Bit(ev.fov # <<>>), G)
    /\ ev.to.box => \A i \in DOMAIN T : \E k \in DOMAIN G : Same4(G[k].pts, T[i].box) /\ G[k].face = hue'[TKey(ev, T[i])]
    /\ ev.so.box => \A i \in DOMAIN ev.reps : \E k \in DOMAIN G : Same4(G[k].pts, ev.reps[i].box) /\ G[k].face = hue'[ev.so.c + ev.reps[i].cid]
    /\ ev.fov # <<>> => \E k \in DOMAIN G : Same4(G[k].pts, ev.fov)
Says(ev, at, s) == \E k \in DOMAIN ev.got.texts : ev.got.texts[k].s = s /\ Around(ev.got.texts[k].at, at)
SaysR(ev, at, r) == \E k \in DOMAIN ev.got.texts : LET d == ev.got.texts[k].v - r IN d \in -5..5 /\ Around(ev.got.texts[k].at, at)
TextsOK(ev) ==
    LET T == Shown(ev) IN
    /\ Count((Len(T) * (Bit(ev.to.rs) + Bit(ev.to.ids) + Bit(ev.to.cids))) + (Len(ev.reps) * (Bit(ev.so.ids) + Bit(ev.so.cids))), ev.got.texts)
    /\ \A i \in DOMAIN T : /\ ev.to.rs => SaysR(ev, T[i].at, T[i].r)
                           /\ ev.to.ids => Says(ev, T[i].at, ToString(T[i].id))
                           /\ ev.to.cids => Says(ev, T[i].at, ToString(T[i].cid))
    /\ \A i \in DOMAIN ev.reps : /\ ev.so.ids => Says(ev, ev.reps[i].at, ToString(i - 1))
                                 /\ ev.so.cids => Says(ev, ev.reps[i].at, ToString(ev.reps[i].cid))

\* the map: the array as it is, its first row at the bottom, on a scale from zero to its largest
ImagesOK(ev) ==
    /\ Count(Bit(ev.map # <<>>), ev.got.images)
    /\ ev.map # <<>> => LET g == ev.got.images[1] IN
        /\ g.a = ev.map /\ g.low /\ g.vmin = 0 /\ g.vmax = ev.top
        /\ ev.extent # <<>> => (Len(g.extent) = 4 /\ \A k \in 1..4 : ZNear(g.extent[k], ev.extent[k], <<0, 100>>))
    /\ ev.view # <<>> => \A k \in 1..4 : ZNear(ev.got.view[k], ev.view[k], <<0, 100>>)

\* the colours of keys, as boxes of those numbers are drawn; traces have colours of their own
Learn(ev) == FoldLeft(LAMBDA h, x : IF x[1] \in DOMAIN h THEN h ELSE h @@ (x[1] :> x[2]), hue, ev.hues)
Injective(h) == Cardinality({h[k] : k \in DOMAIN h}) = Cardinality(DOMAIN h)
SceneOK(ev) == LinesOK(ev) /\ MarksOK(ev) /\ EllsOK(ev) /\ PolysOK(ev) /\ TextsOK(ev) /\ ImagesOK(ev)

\* ---- statistics over time
StatsOK(ev) ==
    /\ Len(ev.got) = 3
    /\ \A w \in {"est", "rep", "ver"} : \E k \in 1..3 :
        LET ks == SelectSeq([i \in 1..Len(ev[w]) |-> i], LAMBDA i : ev[w][i] # -1)
        IN  ev.got[k] = [j \in 1..Len(ks) |-> <<ks[j] - 1, ev[w][ks[j]]>>]
    /\ ev.got[1] = [i \in 1..Len(ev.est) |-> <<i - 1, ev.est[i]>>]

\* ---- the traces of recorded targets (clmb.py): weighted means, components' ellipses
TraceOK(ev) ==
    LET H == IF ev.back = 0 THEN ev.hist ELSE SubSeq(ev.hist, 1 + (IF Len(ev.hist) > ev.back THEN Len(ev.hist) - ev.back ELSE 0), Len(ev.hist))
        Mean(s) == [d \in 1..2 |-> ZSum([k \in DOMAIN s |-> ZMul(s[k].w, s[k].x[d])])]
        z == ev.hist[Len(ev.hist)]
        here == Mean(z)
        Up1(m) == [d \in 1..2 |-> [n |-> m[d].n, m |-> NShift(m[d].m, 3)]]
        \* unbiased weighted covariance of particles
        s2 == ZSub(ZUp(Z(1), 6), ZSum([k \in DOMAIN z |-> ZMul(z[k].w, z[k].w)]))
        Dev(k, d) == ZSub(z[k].x[d], Up1(here)[d])
        Low(v, m) == [n |-> v.n, m |-> NShift(v.m, m)]
        Cov(a, b) == Low(ZSum([k \in DOMAIN z |-> ZMul(z[k].w, ZMul(Dev(k, a), Dev(k, b)))]), 6)
        C == << <<Cov(1, 1), Cov(1, 2)>>, <<Cov(1, 2), Cov(2, 2)>> >>
        OnCloud(p) ==
            LET c == Up1(here) n == ZSub(p[1], c[1]) e == ZSub(p[2], c[2])
                q == ZSum(<< ZMul(ZMul(e, e), C[1][1]), ZMul(Z(-2), ZMul(ZMul(n, e), C[1][2])), ZMul(ZMul(n, n), C[2][2]) >>)
                d == ZSub(ZMul(C[1][1], C[2][2]), ZMul(C[1][2], C[1][2]))
                tr == ZAdd(C[1][1], C[2][2])
            IN  ZNear(ZMul(q, Low(s2, 3)), ZUp(ZMul(Z(4), d), 6), Up(NMul(tr.m, tr.m), 4))
    IN
    /\ Len(ev.got.lines) = (IF ev.trace THEN 1 ELSE 0)
    /\ ev.trace => LET p == ev.got.lines[1].pts IN Len(p) = Len(H) /\ \A k \in DOMAIN p : Close(p[k], Up1(Mean(H[k])))
    /\ (ev.ell /\ ev.kind = "GM") =>
        /\ \A k \in DOMAIN ev.got.ells : \E i \in DOMAIN z : Ellipse(ev.got.ells[k].pts, z[i].x, z[i].P, 2)
        /\ \A i \in DOMAIN z : \E k \in DOMAIN ev.got.ells : Ellipse(ev.got.ells[k].pts, z[i].x, z[i].P, 2)
    /\ (ev.ell /\ ev.kind = "PF") => (ev.got.ells # <<>> /\ \A k \in DOMAIN ev.got.ells : \A i \in 1..8 : OnCloud(ev.got.ells[k].pts[i]))
    /\ ~ev.ell => ev.got.ells = <<>>
    /\ \A k \in DOMAIN ev.got.texts : Close(ev.got.texts[k].at, Up1(here))
    /\ {ev.got.texts[k].s : k \in {k \in DOMAIN ev.got.texts : ~ev.rs \/ ev.got.texts[k].s = ToString(ev.id)}} \subseteq {ToString(ev.id)}
    /\ Len(ev.got.texts) = Bit(ev.ids) + Bit(ev.rs)
    /\ ev.ids => \E k \in DOMAIN ev.got.texts : ev.got.texts[k].s = ToString(ev.id)
    /\ ev.rs => \E k \in DOMAIN ev.got.texts : (ev.got.texts[k].v - ev.r) \in -5..5

\* ---- the application hands everything to its tracker and back
AppOK(ev) == ev.asked = ev.told /\ ev.back = ev.given

Meaning(ev) ==
    /\ hue' = (IF ev.e \in {"scene", "trace"} THEN Learn(ev) ELSE hue)
    /\ ev.e \in {"scene", "trace"} => \A k \in DOMAIN ev.hues : hue'[ev.hues[k][1]] = ev.hues[k][2]
    /\ Injective(hue')
    /\ CASE ev.e = "scene" -> SceneOK(ev)
         [] ev.e = "stats" -> StatsOK(ev)
         [] ev.e = "trace" -> TraceOK(ev)
         [] ev.e = "app" -> AppOK(ev)
         [] OTHER -> FALSE

Init == l = 1 /\ hue = << >>
Next == /\ l <= Len(Trace)
        /\ Meaning(Trace[l])
        /\ l' = l + 1
=============================================================================
