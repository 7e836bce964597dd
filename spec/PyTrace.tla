------------------------------- MODULE PyTrace -------------------------------
(* Conformance of the Python module.  Every event has what Python saw and what *)
(* the library holds after the same steps.  Attributes are stores: what is set *)
(* is what is read, nothing else moves; the values are written bit by bit.     *)
EXTENDS Integers, FiniteSets, TraceBase, TLC

VARIABLE at      \* object |-> attribute |-> value (hexadecimal words)

Close(a, b, tol) == a - b <= tol /\ b - a <= tol
CloseAll(a, b, tol) == Len(a) = Len(b) /\ \A k \in DOMAIN a : Close(a[k], b[k], tol)

\* one target or report as the other; groups are compared by SameGroups
Target(a, b) == a.id = b.id /\ Close(a.r, b.r, 5) /\ CloseAll(a.x, b.x, 5) /\ CloseAll(a.P, b.P, 50)
Targets(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : \E j \in DOMAIN b : Target(a[i], b[j])
Report(a, b) == CloseAll(a.x, b.x, 5) /\ CloseAll(a.P, b.P, 5) /\ a.kappa = b.kappa
Reports(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Report(a[i], b[i])

Cids(o) == [e \in 1..(Len(o.reports) + Len(o.post)) |->
              IF e <= Len(o.reports) THEN o.reports[e].cid ELSE o.post[e - Len(o.reports)].cid]
SameGroups(a, b) == LET ca == Cids(a) cb == Cids(b) IN
    Len(ca) = Len(cb) /\ \A e, d \in DOMAIN ca : (ca[e] = ca[d]) = (cb[e] = cb[d])
Bag(o) == LET t(i) == <<o.cnt[i], o.cnr[i], o.cnh[i]>>
          IN  [x \in {t(i) : i \in DOMAIN o.cnt} |-> Cardinality({i \in DOMAIN o.cnt : t(i) = x})]
Counts(a, b) == a.ncl = b.ncl /\ Len(a.cnt) = Len(b.cnt) /\ Len(a.cnr) = Len(b.cnr) /\ Len(a.cnh) = Len(b.cnh) /\ Bag(a) = Bag(b)

Over(a, b) == Close(a.enof, b.enof, 2) /\ a.nofd = b.nofd /\ a.nof = b.nof /\ Targets(a.sum, b.sum)
Queries(a, b) ==
    /\ Over(a, b)
    /\ Len(a.reg) = Len(b.reg) /\ \A i \in DOMAIN a.reg : Over(a.reg[i], b.reg[i])
    /\ Close(a.ospa, b.ospa, 20) /\ Close(a.gospa, b.gospa, 20)
    /\ Len(a.phd) = Len(b.phd) /\ \A i \in DOMAIN a.phd : CloseAll(a.phd[i], b.phd[i], 3000)
    /\ Counts(a, b)

Faithful(p) == p.type /\ p.before = p.after

Meaning(ev) ==
    LET py == ev.py cc == ev.cc IN
    CASE ev.e = "make" -> py.kind = cc.kind /\ py.at = cc.at /\ py.repr = cc.repr
      [] ev.e = "set" ->
           /\ py.v = cc.v /\ py.at = cc.at
           /\ LET old == at[py.o] IN old # <<>> =>
                /\ DOMAIN py.at = DOMAIN old
                /\ \A a \in DOMAIN old : py.at[a] = IF a = py.a THEN py.v ELSE old[a]
      [] ev.e = "tracker" -> py.at = cc.at /\ (py.frm # "" => py.at = at[py.frm])
      [] ev.e = "value" -> Len(py.py) = Len(cc.py) /\ \A i \in DOMAIN py.py : CloseAll(py.py[i], cc.py[i], 2)
      [] ev.e = "scan" -> Reports(py.reports, cc.reports) /\ Targets(py.post, cc.post) /\ SameGroups(py, cc) /\ Counts(py, cc)
      [] ev.e = "predict" -> Targets(py.post, cc.post)
      [] ev.e = "queries" -> Queries(py.q, cc.q) /\ Queries(py.app, cc.q) /\ py.named = cc.named
      [] ev.e = "pickles" -> \A i \in DOMAIN py.got : Faithful(py.got[i])
      [] OTHER -> FALSE

Init == l = 1 /\ at = <<>>
Next == /\ l <= Len(Trace)
        /\ LET ev == Trace[l] IN
           /\ Meaning(ev) = TRUE
           /\ at' = (CASE ev.e \in {"make", "set"} -> (ev.py.o :> ev.py.at) @@ at
                       [] ev.e = "tracker" -> ("live" :> ev.py.at) @@ at
                       [] OTHER -> at)
        /\ l' = l + 1
=============================================================================
