------------------------------ MODULE EarthTrace ------------------------------
(* Conformance of the coordinate conversions to the earth of Earth.tla.        *)
(* Events: "at" (a place in 10^-6 degrees at h millimetres, its earth-centred  *)
(* position, frames, and the way back), "by" (n, e, d millimetres from an      *)
(* origin, every way there and back).  Numbers recorded have 12 decimals.      *)
EXTENDS Earth, TraceBase

Micro == Ten(14)                              \* 10^-6
Milli == Ten(17)                              \* 10^-3
Ang(k) == [n |-> k < 0, m |-> NMul(OfNat(IF k < 0 THEN -k ELSE k), Ten(6))]
Len20(k) == [n |-> k < 0, m |-> NMul(OfNat(IF k < 0 THEN -k ELSE k), Ten(17))]       \* millimetres
Rec(v) == [i \in DOMAIN v |-> ZUp(v[i], 2)]
Flat(F) == [i \in 1..(3 * Len(F)) |-> F[(i + 2) \div 3][((i - 1) % 3) + 1]]
OnEarth(v) == NLe(v[1].m, Deg(90)) /\ NLe(v[2].m, Deg(180))
AtSea(v) == Centred(Place(v[1], v[2]), Z(0))
Above(v) == Centred(Place(v[1], v[2]), ZUp(v[3], 2))

\* v is the place under X
Under(X, v) ==
    LET q == Place(v[1], v[2]) w == Into(Frame(q), Minus(X, Centred(q, Z(0))))
    IN  OnEarth(v) /\ NLe(w[1].m, Milli) /\ NLe(w[2].m, Milli) /\ NLe(w[3].m, Up(OfNat(200000), 5))

AtOK(ev) ==
    LET p == Place(Ang(ev.la), Ang(ev.lo)) X == Centred(p, Len20(ev.h)) G == Centred(p, Z(0)) IN
    /\ Near(Rec(ev.lla), X, Micro)
    /\ Near(Rec(ev.ll), G, Micro)
    /\ Near(Rec(ev.ned), Flat(Frame(p)), Ten(9))
    /\ Near(Rec(ev.ne), Flat(<<North(p), East(p)>>), Ten(9))
    /\ OnEarth(ev.blla) /\ Near(Above(ev.blla), X, Milli) /\ ZNear(ZUp(ev.blla[3], 2), Len20(ev.h), Milli)
    /\ OnEarth(ev.bll) /\ Near(AtSea(ev.bll), G, Milli)
    /\ OnEarth(ev.hll) /\ Near(AtSea(ev.hll), G, Milli)

ByOK(ev) ==
    LET p == Place(Ang(ev.la), Ang(ev.lo))
        F == Frame(p)
        w == <<Len20(ev.n), Len20(ev.e_), Len20(ev.d)>>
        O == Centred(p, Len20(ev.h))  S == Centred(p, Z(0))
        X == Plus(O, Out(F, w))       Y == Plus(S, Out(F, <<w[1], w[2]>>))
        q == AtSea(ev.ll)
        ne == Into(<<F[1], F[2]>>, Minus(q, S))
        near == ev.n \in -3000000..3000000 /\ ev.e_ \in -3000000..3000000
    IN
    /\ Near(Rec(ev.ecef), X, Micro)
    /\ Near(Rec(ev.ned), w, Micro)
    /\ OnEarth(ev.lla) /\ Near(Above(ev.lla), X, Milli)
    /\ Near(Rec(ev.lned), w, Milli)
    /\ Under(Y, ev.ll)
    /\ Near(Rec(ev.surf), q, Micro)
    /\ Near(Rec(ev.ne), ne, Micro)
    /\ Near(Rec(ev.sne), ne, Micro)
    /\ near => Near(Rec(ev.ne), <<w[1], w[2]>>, Milli)
    /\ Near(ev.lli, <<ev.ll[1], ev.ll[2], ZUp(Z(7), 3), ZUp(Z(8), 3)>>, <<2>>)
    /\ Near(Rec(ev.nei), <<Rec(ev.ne)[1], Rec(ev.ne)[2], ZUp(Z(7), 5), ZUp(Z(8), 5)>>, Ten(12))

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET ev == Trace[l] IN
           (CASE ev.e = "at" -> AtOK(ev)
              [] ev.e = "by" -> ByOK(ev)
              [] OTHER -> FALSE) = TRUE
        /\ l' = l + 1
=============================================================================
