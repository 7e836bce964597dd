----------------------------- MODULE SharedIndex -----------------------------
(***************************************************************************)
(* The structures every thread shares: the spatial index and the list of    *)
(* targets.  An operation on one of them takes time; while one that changes *)
(* a structure is open, no other thread may have one open on it.            *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets

VARIABLE open    \* operations begun and not finished: [th, o, w]

Conflict(p, q) == p.th # q.th /\ p.o = q.o /\ (p.w \/ q.w)
NoRace == \A p, q \in open : ~Conflict(p, q)

Op(th, o, w) == [th |-> th, o |-> o, w |-> w]
Begin(p) == open' = open \cup {p}
End(p) == p \in open /\ open' = open \ {p}
=============================================================================
