----------------------------- MODULE IndexTrace -----------------------------
(* Conformance of RTree.  C01 enforces query answers; C02 enforces counts,  *)
(* iteration, early stop and copies.                                        *)
EXTENDS SpatialIndex, TraceBase

VARIABLES es,      \* the entries of the index
          copy     \* those of the index read back last, or of none

On(p, x) == (CHECK = p) => x

Iterated(ev, e) == /\ IsListOf(ev.ids, DOMAIN e)
                   /\ Len(ev.ids) = Len(ev.boxes)
                   /\ \A i \in 1..Len(ev.ids) : ev.boxes[i] = e[ev.ids[i]]

Step(ev) ==
    CASE ev.e = "insert" -> es' = With(es, ev.id, ev.box) /\ copy' = copy
      [] ev.e = "remove" -> es' = Without(es, ev.id) /\ copy' = copy    \* of an absent one: no change
      [] ev.e \in {"clear", "new"} -> es' = <<>> /\ copy' = copy
      [] ev.e = "query" -> /\ (On("C01", IsListOf(ev.ids, Hits(es, ev.q)))
                              /\ On("C02", ev.n = Len(ev.ids))) = TRUE
                           /\ UNCHANGED <<es, copy>>
      [] ev.e = "stop" ->    \* the visitor asked to stop at its k-th call
            /\ On("C02", LET h == Hits(es, ev.q) IN
                             /\ Len(ev.ids) = IF Cardinality(h) < ev.k THEN Cardinality(h) ELSE ev.k
                             /\ SeqSet(ev.ids) \subseteq h
                             /\ Cardinality(SeqSet(ev.ids)) = Len(ev.ids)) = TRUE
            /\ UNCHANGED <<es, copy>>
      [] ev.e = "count" -> On("C02", ev.n = Cardinality(DOMAIN es)) = TRUE /\ UNCHANGED <<es, copy>>
      [] ev.e = "iterate" -> On("C02", Iterated(ev, es)) = TRUE /\ UNCHANGED <<es, copy>>
      [] ev.e = "saveload" -> On("C02", ev.ok /\ ev.n = Cardinality(DOMAIN es)) = TRUE /\ copy' = es /\ es' = es
      [] ev.e = "cquery" -> On("C02", IsListOf(ev.ids, Hits(copy, ev.q))) = TRUE /\ UNCHANGED <<es, copy>>
      [] ev.e = "citerate" -> On("C02", Iterated(ev, copy)) = TRUE /\ UNCHANGED <<es, copy>>
      [] OTHER -> FALSE

Init == l = 1 /\ es = <<>> /\ copy = <<>>
Next == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
=============================================================================
