----------------------------- MODULE RTreeDesign -----------------------------
(***************************************************************************)
(* The tree under the spatial index, in one dimension: nodes of at most    *)
(* MaxN branches, any choice of subtree on the way down, any split that    *)
(* leaves MinN in each half, removal that condenses underfull nodes and    *)
(* reinserts their branches at their level, and a root that grows and      *)
(* collapses.  Every choice the heuristics make is left open; the tree     *)
(* must answer queries exactly all the same, and keep its fill and its     *)
(* balance.                                                                *)
(* A node is [lvl, br], br a set of [lo, hi, sub] with sub a node, or      *)
(* [lvl |-> -1, id |-> ...] in the leaves.                                 *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, FiniteSetsExt, Sequences, TLC

CONSTANTS MaxN, MinN, Ids, Points

VARIABLES root,     \* the tree
          es        \* what it should hold: a function from ids to intervals

vars == <<root, es>>
Intervals == {<<a, b>> \in Points \X Points : a <= b}

Cover(n) == [lo |-> Min({b.lo : b \in n.br}), hi |-> Max({b.hi : b \in n.br}), sub |-> n]
Leaf(id, iv) == [lo |-> iv[1], hi |-> iv[2], sub |-> [lvl |-> -1, id |-> id]]

\* All outcomes (one node, or the two of a split) of a node that now has these branches.
Splits(n) == IF Cardinality(n.br) <= MaxN THEN {{n}}
             ELSE { {[n EXCEPT !.br = S], [n EXCEPT !.br = n.br \ S]} :
                    S \in {T \in SUBSET n.br : Cardinality(T) >= MinN /\ Cardinality(n.br \ T) >= MinN} }

RECURSIVE AddTo(_, _)
AddTo(n, b) ==      \* b belongs on level b.sub.lvl + 1
    IF n.lvl = b.sub.lvl + 1
    THEN Splits([n EXCEPT !.br = n.br \cup {b}])
    ELSE UNION { UNION { Splits([n EXCEPT !.br = (n.br \ {c}) \cup {Cover(m) : m \in ms}])
                         : ms \in AddTo(c.sub, b) } : c \in n.br }

Grow(ms) == IF Cardinality(ms) = 1 THEN CHOOSE m \in ms : TRUE
            ELSE [lvl |-> (CHOOSE m \in ms : TRUE).lvl + 1, br |-> {Cover(m) : m \in ms}]
InsertIn(r, b) == {Grow(ms) : ms \in AddTo(r, b)}

RECURSIVE ReinsertAll(_, _)
ReinsertAll(rs, bs) ==
    IF bs = {} THEN rs
    ELSE LET b == CHOOSE x \in bs : \A y \in bs : x.sub.lvl >= y.sub.lvl
         IN  ReinsertAll(UNION {InsertIn(r, b) : r \in rs}, bs \ {b})

\* Removal of leaf branch b below n: what stays, and the branches to reinsert
RECURSIVE Drop(_, _)
Drop(n, b) ==
    IF n.lvl = 0
    THEN [found |-> b \in n.br, n |-> [n EXCEPT !.br = n.br \ {b}], out |-> {}]
    ELSE LET ds == {<<c, Drop(c.sub, b)>> : c \in {k \in n.br : k.lo <= b.hi /\ b.lo <= k.hi}}
             fs == {d \in ds : d[2].found}
         IN  IF fs = {} THEN [found |-> FALSE, n |-> n, out |-> {}]
             ELSE LET d == CHOOSE x \in fs : TRUE
                      m == d[2].n
                  IN  IF Cardinality(m.br) >= MinN
                      THEN [found |-> TRUE, n |-> [n EXCEPT !.br = (n.br \ {d[1]}) \cup {Cover(m)}], out |-> d[2].out]
                      ELSE [found |-> TRUE, n |-> [n EXCEPT !.br = n.br \ {d[1]}], out |-> d[2].out \cup m.br]

Collapse(r) == IF r.lvl > 0 /\ Cardinality(r.br) = 1 THEN (CHOOSE b \in r.br : TRUE).sub ELSE r

RECURSIVE Search(_, _)
Search(n, q) == IF n.lvl = -1 THEN {n.id}
                ELSE UNION {Search(b.sub, q) : b \in {k \in n.br : k.lo <= q[2] /\ q[1] <= k.hi}}

Init == root = [lvl |-> 0, br |-> {}] /\ es = <<>>

Insert(id, iv) == /\ id \notin DOMAIN es
                  /\ root' \in InsertIn(root, Leaf(id, iv))
                  /\ es' = [k \in DOMAIN es \cup {id} |-> IF k = id THEN iv ELSE es[k]]
Remove(id) == /\ id \in DOMAIN es
              /\ LET d == Drop(root, Leaf(id, es[id]))
                 IN  d.found /\ root' \in {Collapse(r) : r \in ReinsertAll({d.n}, d.out)}
              /\ es' = [k \in DOMAIN es \ {id} |-> es[k]]

Next == \E id \in Ids : Remove(id) \/ \E iv \in Intervals : Insert(id, iv)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Exact == \A q \in Intervals : Search(root, q) = {id \in DOMAIN es : es[id][1] <= q[2] /\ q[1] <= es[id][2]}

RECURSIVE Sound(_, _)
Sound(n, top) == \/ n.lvl = -1
                 \/ /\ Cardinality(n.br) <= MaxN
                    /\ top \/ Cardinality(n.br) >= MinN
                    /\ \A b \in n.br : b.sub.lvl = n.lvl - 1 /\ Sound(b.sub, FALSE)
                    /\ \A b \in n.br : n.lvl > 0 => b = Cover(b.sub)
Shape == Sound(root, TRUE) /\ (root.lvl > 0 => Cardinality(root.br) >= 2)
\* a stored entry can always be removed
Findable == \A id \in DOMAIN es : Drop(root, Leaf(id, es[id])).found
=============================================================================
