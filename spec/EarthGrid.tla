------------------------------ MODULE EarthGrid ------------------------------
(* The specification of the earth against what must hold of it, on a grid of  *)
(* places: unit circles, the ellipsoid's equation, frames that are rotations, *)
(* north the way latitude grows, east the way longitude grows, down the way   *)
(* height falls.                                                              *)
EXTENDS Earth
CONSTANT Step
VARIABLES lat, lon
A(n) == [n |-> n < 0, m |-> Deg(IF n < 0 THEN -n ELSE n)]
Init == lat = -90 /\ lon = -180
Next == \/ lat + Step <= 90 /\ lat' = lat + Step /\ UNCHANGED lon
        \/ lon + Step <= 180 /\ lon' = lon + Step /\ UNCHANGED lat

P == Place(A(lat), A(lon))
Unit == Ten(8)                 \* 10^-12
Circle == \A p \in {<<P.sa, P.ca>>, <<P.so, P.co>>} : ZNear(ZAdd(ZMulF(p[1], p[1]), ZMulF(p[2], p[2])), ZN(One), Ten(4))
Exact == /\ lat \in {30, -30} => ZNear(P.sa, [n |-> lat < 0, m |-> NHalf(One)], Ten(3))
         /\ lat \in {90, -90} => ZIsZero(P.ca) /\ P.sa.m = One
         /\ lat = 0 => ZIsZero(P.sa) /\ P.ca.m = One
         /\ lon \in {180, -180} => ZIsZero(P.so) /\ P.co.m = One /\ P.co.n
         /\ lat \in {45, -45} => ZNear(ZMulF(P.sa, P.sa), ZN(NHalf(One)), Ten(4))
         /\ lon \in {60, -60} => ZNear(P.co, ZN(NHalf(One)), Ten(3))
\* x^2 + y^2 + z^2 / (1 - e^2) = a^2, within 10^-4 square metres of 4 10^13
Ellipsoid ==
    LET X == Centred(P, Z(0))
        k == NSub(One, E2)
    IN  ZNear(ZAdd(ZMulF(ZAdd(ZMulF(X[1], X[1]), ZMulF(X[2], X[2])), ZN(k)), ZMulF(X[3], X[3])), ZN(Mul(Mul(Axis, Axis), k)), Ten(16))
Rotation == LET F == Frame(P) IN
    /\ \A i, j \in 1..3 : ZNear(Dot(F[i], F[j]), IF i = j THEN ZN(One) ELSE Z(0), Ten(5))
    \* right-handed: north x east = down
    /\ LET u == F[1] v == F[2] x(a, b) == ZSub(ZMulF(u[a], v[b]), ZMulF(u[b], v[a])) IN Near(<<x(2, 3), x(3, 1), x(1, 2)>>, F[3], Ten(5))
\* small steps: north, east and down by what the radii of curvature give, nothing else (in 10^-6 metres)
Small1 == [n |-> FALSE, m |-> Ten(6)]          \* a millionth of a degree
Steps ==
    LET F == Frame(P) o == Centred(P, Z(0))
        n == IF lat = 90 THEN <<>> ELSE Into(F, Minus(Centred(Place(ZAdd(A(lat), Small1), A(lon)), Z(0)), o))
        e == IF lon = 180 THEN <<>> ELSE Into(F, Minus(Centred(Place(A(lat), ZAdd(A(lon), Small1)), Z(0)), o))
        d == Into(F, Minus(Centred(P, ZN(One)), o))
        um == Ten(14)
        rad == Mul(NDivSmall(NShift(Pi, 1), 180), Ten(14))         \* a millionth of a degree
    IN  /\ (n # <<>>) => ~n[1].n /\ NLe(NMul(<<1105>>, Ten(16)), n[1].m) /\ NLe(n[1].m, NMul(<<1117>>, Ten(16))) /\ NLe(n[2].m, um) /\ NLe(n[3].m, um)
        /\ (e # <<>>) => (~e[2].n \/ ZIsZero(e[2])) /\ NLe(NDist(e[2].m, Mul(Mul(P.n, P.ca.m), rad)), um) /\ NLe(e[1].m, um) /\ NLe(e[3].m, um)
        /\ Near(d, <<Z(0), Z(0), [n |-> TRUE, m |-> One]>>, um)
\* f (2 - f) with f = 10^9 / 298257223563
ASSUME Eccentric == LET q == <<3563, 5722, 2982>> IN NLe(NDist(NMul(E2, NMul(q, q)), NMul(NMul(NSub(NAdd(q, q), Ten(9)), Ten(9)), One)), NMul(NMul(q, q), <<2>>))
=============================================================================
