-------------------------------- MODULE Murty --------------------------------
(***************************************************************************)
(* Murty's ranking of assignments as the library does it: a priority queue *)
(* of disjoint subspaces of the solutions, each with a lower bound; a      *)
(* subspace is solved only when it reaches the top, and drawing its best   *)
(* solution splits the rest of it row by row, in any order of the rows,    *)
(* each part with some lower bound (the code takes parent cost + dual      *)
(* slack).                                                                 *)
(***************************************************************************)
EXTENDS Assignment, TLC

CONSTANT Matrices

VARIABLES C, queue, drawn, ended

vars == <<C, queue, drawn, ended>>

\* A subspace: pairs fixed in, pairs excluded.
Space(node) == {s \in Assignments(C) : /\ \A p \in node.fix : s[p[1]] = p[2]
                                       /\ \A p \in node.ex : s[p[1]] # p[2]}
Best(node) == Min({CostOf(C, s) : s \in Space(node)})
FreeRows(node) == Rows(C) \ {p[1] : p \in node.fix}

Init == /\ C \in Matrices
        /\ queue = {[fix |-> {}, ex |-> {}, bound |-> 0 - 1000, solved |-> FALSE, sol |-> <<>>]}
        /\ drawn = <<>>
        /\ ended = FALSE

Top(n) == n \in queue /\ \A m \in queue : n.bound <= m.bound

\* An unsolved subspace on top is solved, and dropped when it is empty.
Solve(n) ==
    /\ ~ended /\ Top(n) /\ ~n.solved
    /\ IF Space(n) = {} THEN queue' = queue \ {n}
       ELSE \E s \in Space(n) : /\ CostOf(C, s) = Best(n)
                                /\ queue' = (queue \ {n}) \cup {[n EXCEPT !.bound = Best(n), !.solved = TRUE, !.sol = s]}
    /\ UNCHANGED <<C, drawn, ended>>

Parts(n, order) ==
    { [fix |-> n.fix \cup {<<order[m], n.sol[order[m]]>> : m \in 1..(k - 1)},
       ex |-> n.ex \cup {<<order[k], n.sol[order[k]]>>},
       bound |-> n.bound, solved |-> FALSE, sol |-> <<>>] : k \in 1..Len(order) }

\* Lower bounds: the parent's cost, or as tight as can be.
Bounds(n, parts) == { parts,
                      { IF Space(p) = {} THEN p ELSE [p EXCEPT !.bound = Best(p)] : p \in parts } }

Draw(n) ==
    /\ ~ended /\ Top(n) /\ n.solved
    /\ drawn' = Append(drawn, [s |-> n.sol, c |-> CostOf(C, n.sol)])
    /\ \E order \in {o \in [1..Cardinality(FreeRows(n)) -> FreeRows(n)] :
                        \A a, b \in DOMAIN o : a # b => o[a] # o[b]} :
          \E ps \in Bounds(n, Parts(n, order)) : queue' = (queue \ {n}) \cup ps
    /\ UNCHANGED <<C, ended>>

End == /\ ~ended /\ queue = {} /\ ended' = TRUE /\ UNCHANGED <<C, queue, drawn>>

Next == (\E n \in queue : Solve(n) \/ Draw(n)) \/ End \/ (ended /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
Drawn == {drawn[k].s : k \in 1..Len(drawn)}

Ranked == RankingOK(C, drawn, ended)
\* The undrawn solutions are split over the queue without gap or overlap.
Partition == /\ \A s \in Assignments(C) \ Drawn : Cardinality({n \in queue : s \in Space(n)}) = 1
             /\ \A s \in Drawn : \A n \in queue : s \notin Space(n)
BoundsHold == \A n \in queue : \A s \in Space(n) : n.bound <= CostOf(C, s)
Ends == <>ended

\* Model values for TLC
CONSTANT Stride
Entry == {0, 1, INF}
Val(x) == IF x = INF THEN 2 ELSE x
Hash(M) == FoldLeft(LAMBDA a, i : FoldLeft(LAMBDA b, j : (3 * b + Val(M[i][j])) % 9973, a, [j \in Cols(M) |-> j]), 0, [i \in Rows(M) |-> i])
Mats22 == [1..2 -> [1..2 -> {0, 1, 2, INF}]]
Mats23 == {M \in [1..2 -> [1..3 -> Entry]] : Hash(M) % Stride = 1}
Mats33 == {M \in [1..3 -> [1..3 -> Entry]] : Hash(M) % Stride = 1}
=============================================================================
