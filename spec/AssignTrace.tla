----------------------------- MODULE AssignTrace -----------------------------
(* Conformance of lap() and Murty: every recorded call is one the           *)
(* definitions of Assignment allow.                                         *)
EXTENDS Assignment, TraceBase

LapOK(ev) ==
    LET C == ev.C
    IN  IF ev.small
        THEN /\ ev.ok = Feasible(C)
             /\ ev.ok => /\ IsOptimal(C, ev.s) /\ IsOptimal(C, ev.s2)
                         /\ ev.c = CostOf(C, ev.s)
        ELSE IF ev.ok
             THEN /\ OptimalBy(C, ev.s, ev.u, ev.v) /\ OptimalBy(C, ev.s2, ev.u, ev.v)
                  /\ ev.c = CostOf(C, ev.s)
             ELSE InfeasibleBy(C, {ev.hall[k] : k \in 1..Len(ev.hall)})

MurtyOK(ev) == RankingOK(ev.C, ev.d, ev.ended)

Step(ev) == CASE ev.e = "lap" -> LapOK(ev)
              [] ev.e = "murty" -> MurtyOK(ev)
              [] OTHER -> FALSE

Init == l = 1
Next == l <= Len(Trace) /\ Step(Trace[l]) = TRUE /\ l' = l + 1
=============================================================================
