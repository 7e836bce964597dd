----------------------------- MODULE Assignment -----------------------------
(***************************************************************************)
(* The linear assignment problem: what a solution, an optimum, and a       *)
(* ranking of solutions are.  A cost matrix is a sequence of rows; INF     *)
(* stands for an infinite cost.  An assignment is a sequence giving each   *)
(* row its own column.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt

INF == 1000000000

Rows(C) == 1..Len(C)
Cols(C) == IF Len(C) = 0 THEN {} ELSE 1..Len(C[1])
Finite(C, i, j) == C[i][j] < INF

RECURSIVE ExtendTo(_, _, _)
ExtendTo(C, part, k) ==
    IF k > Len(C) THEN part
    ELSE ExtendTo(C,
                  UNION { { Append(s, j) : j \in { c \in Cols(C) : Finite(C, k, c) /\ \A m \in 1..(k-1) : s[m] # c } }
                          : s \in part },
                  k + 1)

\* Every complete assignment of finite cost
Assignments(C) == ExtendTo(C, {<<>>}, 1)

IsAssignment(C, s) ==
    /\ Len(s) = Len(C)
    /\ \A i \in Rows(C) : s[i] \in Cols(C) /\ Finite(C, i, s[i])
    /\ \A i, k \in Rows(C) : i # k => s[i] # s[k]

CostOf(C, s) == FoldLeft(LAMBDA a, i : a + C[i][s[i]], 0, [i \in 1..Len(C) |-> i])
Feasible(C) == Assignments(C) # {}
MinCost(C) == Min({CostOf(C, s) : s \in Assignments(C)})
IsOptimal(C, s) == IsAssignment(C, s) /\ \A t \in Assignments(C) : CostOf(C, s) <= CostOf(C, t)

\* Certificates, for matrices too large to enumerate.
\* Weak duality: duals u, v with v <= 0 and u[i] + v[j] <= C[i][j] bound every
\* assignment from below by Sum(u) + Sum(v).
OptimalBy(C, s, u, v) ==
    /\ IsAssignment(C, s)
    /\ \A j \in Cols(C) : v[j] <= 0
    /\ \A i \in Rows(C), j \in Cols(C) : Finite(C, i, j) => u[i] + v[j] <= C[i][j]
    /\ CostOf(C, s) = FoldLeft(LAMBDA a, x : a + x, 0, u) + FoldLeft(LAMBDA a, x : a + x, 0, v)
\* Hall: more rows in S than columns they can use.
InfeasibleBy(C, S) ==
    /\ S \subseteq Rows(C)
    /\ Cardinality({j \in Cols(C) : \E i \in S : Finite(C, i, j)}) < Cardinality(S)

-----------------------------------------------------------------------------
\* A ranking: the draws made so far, as a sequence of [s |-> assignment, c |-> cost].
RankingOK(C, draws, ended) ==
    LET A == Assignments(C)
        D == {draws[k].s : k \in 1..Len(draws)}
        n == Len(draws)
    IN  /\ \A k \in 1..n : draws[k].s \in A /\ draws[k].c = CostOf(C, draws[k].s)
        /\ Cardinality(D) = n
        /\ \A k \in 1..(n - 1) : draws[k].c <= draws[k + 1].c
        /\ ended => D = A
        /\ n > 0 => \A t \in A \ D : CostOf(C, t) >= draws[n].c
=============================================================================
