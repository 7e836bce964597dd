------------------------------ MODULE ParTrace ------------------------------
(* Conformance of the tracker under threads: recorded operations on the       *)
(* shared structures, outcomes with one thread and with several (C19), and    *)
(* queries beside predictions (C20).                                          *)
EXTENDS Generations, TraceBase, TLC

VARIABLES opened,      \* operations on the shared structures
          race,        \* the targets a race started with
          begun, ended,\* predictions
          asked        \* query |-> predictions that had ended when it was called

SI == INSTANCE SharedIndex WITH open <- opened
vars == <<opened, race, begun, ended, asked>>
On(P, x) == (CHECK \in P) => x

-----------------------------------------------------------------------------
(* The same outcome, up to names of newborns and of groups *)
Close(a, b, tol) == a - b <= tol /\ b - a <= tol
CloseAll(a, b, tol) == Len(a) = Len(b) /\ \A k \in DOMAIN a : Close(a[k], b[k], tol)
Alike(t, u) == Close(t.r, u.r, 5) /\ CloseAll(t.x, u.x, 5) /\ CloseAll(t.P, u.P, 50)
Ids(s) == {s[i].id : i \in DOMAIN s}
Stored(o) == /\ Cardinality(Ids(o.post)) = Len(o.post)
             /\ o.idx.n = Len(o.post) /\ Len(o.idx.ids) = Len(o.post)
             /\ {o.idx.ids[i] : i \in DOMAIN o.idx.ids} = Ids(o.post)

\* positions in b of the counterparts of the targets in a
Twin(a, b, old, i) ==
    IF a[i].tag < old
    THEN {j \in DOMAIN b : b[j].id = a[i].id /\ b[j].tag = a[i].tag}
    ELSE {j \in DOMAIN b : b[j].tag >= old /\ CloseAll(a[i].x, b[j].x, 5)}
SameTargets(a, b, old) ==
    /\ Len(a) = Len(b) /\ Ids(a) = Ids(b)
    /\ \A i \in DOMAIN a : \E j \in Twin(a, b, old, i) : Alike(a[i], b[j])
    /\ \A i, k \in DOMAIN a : i # k => Twin(a, b, old, i) # Twin(a, b, old, k)
SameGroups(a, b, old) ==
    LET n == Len(a.zc) m == Len(a.post)
        tw == [i \in 1..m |-> CHOOSE j \in Twin(a.post, b.post, old, i) : TRUE]
        ca == [e \in 1..(n + m) |-> IF e <= n THEN a.zc[e] ELSE a.post[e - n].cid]
        cb == [e \in 1..(n + m) |-> IF e <= n THEN b.zc[e] ELSE b.post[tw[e - n]].cid]
    IN  \A e, d \in 1..(n + m) : (ca[e] = ca[d]) = (cb[e] = cb[d])
Bag(o) == LET t(i) == <<o.cnt[i], o.cnr[i], o.cnh[i]>>
          IN  [x \in {t(i) : i \in DOMAIN o.cnt} |-> Cardinality({i \in DOMAIN o.cnt : t(i) = x})]

SamePrediction(ev) == Stored(ev.b) /\ SameTargets(ev.a.post, ev.b.post, 1000000)
SameCorrection(ev) ==
    /\ Stored(ev.b)
    /\ SameTargets(ev.a.post, ev.b.post, ev.old)
    /\ SameGroups(ev.a, ev.b, ev.old)
    /\ CloseAll(ev.a.rB, ev.b.rB, 5)
    /\ ev.a.ncl = ev.b.ncl /\ Len(ev.b.cnt) = ev.b.ncl /\ Bag(ev.a) = Bag(ev.b)

-----------------------------------------------------------------------------
(* A query's value in a state *)
Value(ev, s) ==
    LET r == Meeting(s, ev.b) IN
    CASE ev.k = 0 -> ev.v = Enof(s)
      [] ev.k = 1 -> ev.v = Enof(r)
      [] ev.k = 2 -> ev.v = Nof(s, ev.lim)
      [] ev.k = 3 -> ev.v = Nof(r, ev.lim)
      [] ev.k = 4 -> Len(ev.v) = Len(s) /\ {ev.v[i] : i \in DOMAIN ev.v} = Listing(s)
      [] ev.k = 5 -> Len(ev.v) = Len(r) /\ {ev.v[i] : i \in DOMAIN ev.v} = Listing(r)
      [] ev.k \in {6, 7} ->        \* OSPA and GOSPA of twelve truths at the origin, cut off at 1000, first order
           LET far(t) == LET d == IF t.x < 0 THEN -t.x ELSE t.x IN IF d < 1000 THEN d ELSE 1000
               total == Total([i \in DOMAIN s |-> far(s[i])]) + (12 - Len(s)) * (IF ev.k = 6 THEN 1000 ELSE 500)
               n == IF ev.k = 6 THEN 12 ELSE 1
           IN  ev.v >= 0 /\ ev.v <= 130000000 /\ Close(ev.v * n, total * 10000, n + 1)
      [] ev.k = 8 -> ev.v = Enof(Meeting(s, <<-60, -60, 60, 60>>))
State(g) == Gen(race.pre, race.dx, race.rl, g)

-----------------------------------------------------------------------------
Step(ev) ==
    CASE ev.e \in {"new", "added", "start"} -> opened' = {} /\ UNCHANGED <<race, begun, ended, asked>>
      [] ev.e = "op" ->
           LET p == SI!Op(ev.th, ev.o, ev.w) IN
           /\ IF ev.ph = "b" THEN SI!Begin(p) ELSE SI!End(p)
           /\ On({"C19"}, SI!NoRace')
           /\ UNCHANGED <<race, begun, ended, asked>>
      [] ev.e = "predict" -> opened = {} /\ (On({"C19"}, SamePrediction(ev))) = TRUE /\ UNCHANGED vars
      [] ev.e = "correct" -> opened = {} /\ (On({"C19"}, SameCorrection(ev))) = TRUE /\ UNCHANGED vars
      [] ev.e = "race" -> race' = [pre |-> ev.pre, dx |-> ev.dx, rl |-> ev.rl] /\ begun' = 0 /\ ended' = 0 /\ asked' = <<>> /\ opened' = {}
      [] ev.e = "pb" -> begun' = begun + 1 /\ UNCHANGED <<opened, race, ended, asked>>
      [] ev.e = "pe" -> ended' = ended + 1 /\ UNCHANGED <<opened, race, begun, asked>>
      [] ev.e = "qb" -> asked' = (ev.q :> ended) @@ asked /\ UNCHANGED <<opened, race, begun, ended>>
      [] ev.e = "qe" ->
           /\ On({"C20"}, \E g \in asked[ev.q]..begun : Value(ev, State(g)))
           /\ asked' = [q \in DOMAIN asked \ {ev.q} |-> asked[q]]
           /\ UNCHANGED <<opened, race, begun, ended>>
      [] ev.e = "rest" ->
           /\ On({"C20"}, /\ begun = ev.gens /\ ended = ev.gens
                          /\ LET s == State(ev.gens) IN
                             /\ Len(ev.v) = Len(s) /\ {ev.v[i] : i \in DOMAIN ev.v} = Listing(s)
                             /\ ev.idx.n = Len(s) /\ Len(ev.idx.ids) = Len(s) /\ {ev.idx.ids[i] : i \in DOMAIN ev.idx.ids} = Ids(s))
           /\ UNCHANGED vars

Init == l = 1 /\ opened = {} /\ race = [pre |-> <<>>, dx |-> 0, rl |-> 0] /\ begun = 0 /\ ended = 0 /\ asked = <<>>
Next == /\ l <= Len(Trace)
        /\ Step(Trace[l])
        /\ l' = l + 1
=============================================================================
