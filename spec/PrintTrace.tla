------------------------------- MODULE PrintTrace -------------------------------
(* Conformance of what is printed.  Each event has the text of an object, read   *)
(* as JSON (numbers as fixed point with 5 limbs), and the values it holds.        *)
EXTENDS Numbers, TraceBase

Fields(t, S) == DOMAIN t = S
\* matrices are printed in full, single numbers to six digits
Full(t, v) == ZNear(t, v, NAdd(<<1>>, NShift(v.m, 3)))
Short(t, v) == ZNear(t, v, NAdd(<<1>>, NDivSmall(v.m, 100000)))
Same(t, v) == Len(t) = Len(v)
Vec(t, v) == Same(t, v) /\ \A i \in DOMAIN v : Len(t[i]) = 1 /\ Full(t[i][1], v[i])
Row(t, v) == Len(t) = 1 /\ Same(t[1], v) /\ \A i \in DOMAIN v : Full(t[1][i], v[i])
Mat(t, v) == Same(t, v) /\ \A i \in DOMAIN v : Same(t[i], v[i]) /\ \A j \in DOMAIN v[i] : Full(t[i][j], v[i][j])
Each(t, v, Is1(_, _)) == Same(t, v) /\ \A i \in DOMAIN v : Is1(t[i], v[i])

Gauss(t, v) == Fields(t, {"type", "w", "x", "P"}) /\ t.type = "G" /\ Short(t.w, v.w) /\ Vec(t.x, v.x) /\ Mat(t.P, v.P)
Mixture(t, v) == Fields(t, {"type", "c"}) /\ t.type = "GM" /\ Each(t.c, v, Gauss)
Particles(t, v) == Fields(t, {"type", "w", "x"}) /\ t.type = "PF" /\ Row(t.w, v.w) /\ Mat(t.x, v.x)
Report(t, v) == Fields(t, {"type", "x", "P"}) /\ t.type = "GR" /\ Vec(t.x, v.x) /\ Mat(t.P, v.P)
Summary(t, v) == Fields(t, {"type", "id", "w", "x", "P"}) /\ t.type = "T" /\ t.id = v.id /\ Short(t.w, v.w) /\ Vec(t.x, v.x) /\ Mat(t.P, v.P)
Letter == [predict |-> "u", correct |-> "c", init |-> "i"]
Target(t, v) == /\ Fields(t, {"id", "cid", "la", "r", "pdf"})
                /\ t.id = v.id /\ t.cid = v.cid /\ t.la = Letter[v.la] /\ Short(t.r, v.r) /\ Mixture(t.pdf, v.c)

Meaning(ev) ==
    LET t == ev.txt v == ev.val IN
    /\ ev.e = "print"
    /\ CASE ev.kind = "gaussian" -> Gauss(t, v)
         [] ev.kind = "mixture" -> Mixture(t, v)
         [] ev.kind = "particles" -> Particles(t, v)
         [] ev.kind = "report" -> Report(t, v)
         [] ev.kind = "scan" -> Each(t, v, Report)
         [] ev.kind = "summary" -> Summary(t, v)
         [] ev.kind = "target" -> Target(t, v)
         [] ev.kind = "tracker" -> Fields(t, {"targets"}) /\ Each(t.targets, v, Target)
         [] ev.kind = "group" -> Fields(t, {"type", "R", "T"}) /\ t.type = "CL" /\ Each(t.R, v.R, Report) /\ Each(t.T, v.T, Target)
         [] ev.kind = "box" -> Fields(t, {"type", "c"}) /\ t.type = "BBox" /\ Mat(t.c, v)
         \* the area: its extent in the first coordinate, then in the second
         [] ev.kind = "area" -> Len(t) = 2 /\ \A k \in 1..2 : Len(t[k]) = 2 /\ Short(t[k][1], v.min[k]) /\ Short(t[k][2], v.max[k])
         [] OTHER -> FALSE

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ Meaning(Trace[l]) = TRUE
        /\ l' = l + 1
=============================================================================
