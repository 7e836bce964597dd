----------------------------- MODULE Generations -----------------------------
(***************************************************************************)
(* The targets after a number of predictions, each of which moves every     *)
(* target by dx and halves its existence, and drops those below the limit.  *)
(* Existence in units of 2^-20, positions whole.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt

Total(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)

RECURSIVE Half(_, _)
Half(r, g) == IF g = 0 THEN r ELSE Half(r \div 2, g - 1)

\* pre: [id, r (of 128), x, y, h]; rl: limit
Gen(pre, dx, rl, g) ==
    LET at(t) == [id |-> t.id, r |-> Half(t.r * 8192, g), x |-> t.x + g * dx, y |-> t.y, h |-> t.h]
        all == [i \in DOMAIN pre |-> at(pre[i])]
    IN  IF g = 0 THEN all ELSE SelectSeq(all, LAMBDA t : t.r >= rl)

Meeting(s, b) == SelectSeq(s, LAMBDA t : /\ t.x - t.h <= b[3] /\ b[1] <= t.x + t.h
                                         /\ t.y - t.h <= b[4] /\ b[2] <= t.y + t.h)
Enof(s) == Total([i \in DOMAIN s |-> s[i].r])
Nof(s, lim) == Len(SelectSeq(s, LAMBDA t : t.r >= lim))
Listing(s) == {<<s[i].id, s[i].r, s[i].x, s[i].y>> : i \in DOMAIN s}
=============================================================================
