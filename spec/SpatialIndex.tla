---------------------------- MODULE SpatialIndex ----------------------------
(***************************************************************************)
(* The spatial index as its users see it: a set of entries, each a value   *)
(* with a closed box <<x1, y1, x2, y2>>.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Meets(a, b) == a[1] <= b[3] /\ b[1] <= a[3] /\ a[2] <= b[4] /\ b[2] <= a[4]

\* entries: a function from stored values to boxes
With(es, id, box) == [k \in DOMAIN es \cup {id} |-> IF k = id THEN box ELSE es[k]]
Without(es, id) == [k \in DOMAIN es \ {id} |-> es[k]]
Hits(es, q) == {k \in DOMAIN es : Meets(es[k], q)}

SeqSet(s) == {s[i] : i \in 1..Len(s)}
IsListOf(s, S) == Len(s) = Cardinality(S) /\ SeqSet(s) = S
=============================================================================
