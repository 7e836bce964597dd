--------------------------- MODULE ParallelCorrect ---------------------------
(***************************************************************************)
(* A correction over several threads: the groups of a scan are worked on at *)
(* once; each takes its targets out of the index, works on them, and puts   *)
(* back those that remain viable, dropping the others from the list.  When  *)
(* all are done, births are added, again from several threads.  Every       *)
(* operation on the shared structures takes two steps, and the stretches    *)
(* that use them are under one lock.  Whatever the interleaving, no two     *)
(* operations conflict and the outcome is the same up to names.             *)
(***************************************************************************)
EXTENDS SharedIndex, Sequences, TLC

CONSTANTS Groups,      \* set of groups
          Of,          \* group |-> set of its targets
          Gone,        \* targets that are no longer viable
          Born         \* set of reports that give birth

VARIABLES pc,          \* group or report |-> where it is
          todo,        \* group |-> targets left in the current stretch
          lock,        \* who holds the lock, or 0
          index, list, \* the shared structures
          next, name   \* identifiers: the counter, and report |-> that of its target

vars == <<open, pc, todo, lock, index, list, next, name>>
Old == UNION {Of[g] : g \in Groups}
Procs == Groups \cup Born

Init == /\ open = {} /\ lock = 0
        /\ pc = [p \in Procs |-> IF p \in Groups THEN "start" ELSE "wait"]
        /\ todo = [g \in Groups |-> Of[g]]
        /\ index = Old /\ list = Old
        /\ next = 100 /\ name = [r \in Born |-> 0]

Go(p, at, to) == pc[p] = at /\ pc' = [pc EXCEPT ![p] = to]
Take(p, at, to) == Go(p, at, to) /\ lock = 0 /\ lock' = p
Release(p, at, to) == Go(p, at, to) /\ lock = p /\ lock' = 0

-----------------------------------------------------------------------------
(* A group *)
OutBegin(g) == /\ Take(g, "start", "out") /\ UNCHANGED <<open, todo, index, list, next, name>>
OutOp(g, t) == /\ pc[g] = "out" /\ t \in todo[g] /\ \A p \in open : p.th # g
               /\ Begin(Op(g, "index", TRUE)) /\ UNCHANGED <<pc, todo, lock, index, list, next, name>>
OutOpDone(g, t) == /\ pc[g] = "out" /\ t \in todo[g] /\ End(Op(g, "index", TRUE))
                   /\ index' = index \ {t} /\ todo' = [todo EXCEPT ![g] = @ \ {t}]
                   /\ UNCHANGED <<pc, lock, list, next, name>>
OutEnd(g) == /\ todo[g] = {} /\ Release(g, "out", "work") /\ UNCHANGED <<open, todo, index, list, next, name>>
Work(g) == /\ Go(g, "work", "worked") /\ todo' = [todo EXCEPT ![g] = Of[g]] /\ UNCHANGED <<open, lock, index, list, next, name>>
InBegin(g) == /\ Take(g, "worked", "in") /\ UNCHANGED <<open, todo, index, list, next, name>>
Where(t) == IF t \in Gone THEN "list" ELSE "index"
InOp(g, t) == /\ pc[g] = "in" /\ t \in todo[g] /\ \A p \in open : p.th # g
              /\ Begin(Op(g, Where(t), TRUE)) /\ UNCHANGED <<pc, todo, lock, index, list, next, name>>
InOpDone(g, t) == /\ pc[g] = "in" /\ t \in todo[g] /\ End(Op(g, Where(t), TRUE))
                  /\ index' = (IF t \in Gone THEN index ELSE index \cup {t})
                  /\ list' = (IF t \in Gone THEN list \ {t} ELSE list)
                  /\ todo' = [todo EXCEPT ![g] = @ \ {t}]
                  /\ UNCHANGED <<pc, lock, next, name>>
InEnd(g) == /\ todo[g] = {} /\ Release(g, "in", "done") /\ UNCHANGED <<open, todo, index, list, next, name>>

(* A birth, once every group is done *)
Ready == \A g \in Groups : pc[g] = "done"
BirthBegin(r) == /\ Ready /\ Take(r, "wait", "new") /\ UNCHANGED <<open, todo, index, list, next, name>>
Listing(r) == /\ Go(r, "new", "listing") /\ Begin(Op(r, "list", TRUE)) /\ UNCHANGED <<todo, lock, index, list, next, name>>
Listed(r) == /\ Go(r, "listing", "listed") /\ End(Op(r, "list", TRUE))
             /\ list' = list \cup {r} /\ name' = [name EXCEPT ![r] = next] /\ next' = next + 1
             /\ UNCHANGED <<todo, lock, index>>
Indexing(r) == /\ Go(r, "listed", "indexing") /\ Begin(Op(r, "index", TRUE)) /\ UNCHANGED <<todo, lock, index, list, next, name>>
Indexed(r) == /\ Go(r, "indexing", "indexed") /\ End(Op(r, "index", TRUE)) /\ index' = index \cup {r} /\ UNCHANGED <<todo, lock, list, next, name>>
BirthEnd(r) == /\ Release(r, "indexed", "done") /\ UNCHANGED <<open, todo, index, list, next, name>>

Next == \/ \E g \in Groups : \/ OutBegin(g) \/ OutEnd(g) \/ Work(g) \/ InBegin(g) \/ InEnd(g)
                             \/ \E t \in Of[g] : OutOp(g, t) \/ OutOpDone(g, t) \/ InOp(g, t) \/ InOpDone(g, t)
        \/ \E r \in Born : BirthBegin(r) \/ Listing(r) \/ Listed(r) \/ Indexing(r) \/ Indexed(r) \/ BirthEnd(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
Finished == \A p \in Procs : pc[p] = "done"
Outcome == Finished => /\ list = (Old \ Gone) \cup Born
                       /\ index = list
                       /\ {name[r] : r \in Born} = 100..(99 + Cardinality(Born))
\* nothing is in the index that is not in the list
Within == index \subseteq list
Ends == <>Finished

\* instances
G3 == {21, 22, 23}
Of3 == (21 :> {1, 2} @@ 22 :> {3} @@ 23 :> {4})
Gone3 == {2, 4}
Born3 == {11, 12}
G4 == {21, 22, 23, 24}
Of4 == (21 :> {1, 2} @@ 22 :> {3} @@ 23 :> {4, 5} @@ 24 :> {})
Gone4 == {2, 3}
Born4 == {11, 12, 13}
=============================================================================
