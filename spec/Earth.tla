-------------------------------- MODULE Earth --------------------------------
(***************************************************************************)
(* The WGS 84 ellipsoid, its geographic coordinates and its local frames,   *)
(* from their definitions.  Angles are big integers counting 10^-12         *)
(* degrees; lengths in metres and pure numbers have 20 decimals.            *)
(***************************************************************************)
EXTENDS Numbers

LOCAL D == 5                                   \* limbs behind the point
One == Up(<<1>>, D)
Pi == <<2643, 3846, 7932, 3589, 9265, 1415, 3>>          \* 24 decimals
Axis == Up(OfNat(6378137), D)                  \* semi-major axis
E2 == <<1700, 1413, 9990, 9437, 66>>           \* first eccentricity squared, f (2 - f) for f = 1/298.257223563

Mul(a, b) == NShift(NMul(a, b), D)
ZMulF(a, b) == LET m == Mul(a.m, b.m) IN [n |-> a.n # b.n /\ m # <<>>, m |-> m]
Deg(n) == Up(OfNat(n), 3)                      \* n degrees

\* sine and cosine of m, for 0 <= m <= 45 degrees: the series
Small(m) ==
    LET t == NDivSmall(NShift(NMul(m, Pi), 4), 180)
        Add(a, i) ==
            LET x == NDivSmall(Mul(a.t, t), i) IN
            CASE i % 4 = 1 -> [a EXCEPT !.t = x, !.sp = NAdd(@, x)]
              [] i % 4 = 2 -> [a EXCEPT !.t = x, !.cm = NAdd(@, x)]
              [] i % 4 = 3 -> [a EXCEPT !.t = x, !.sm = NAdd(@, x)]
              [] OTHER -> [a EXCEPT !.t = x, !.cp = NAdd(@, x)]
        r == FoldLeft(Add, [t |-> One, sp |-> <<>>, sm |-> <<>>, cp |-> One, cm |-> <<>>], [i \in 1..20 |-> i])
    IN  [s |-> ZN(NSub(r.sp, r.sm)), c |-> ZN(NSub(r.cp, r.cm))]

\* of any angle up to a full turn
RECURSIVE SC(_)
SC(z) == LET m == z.m IN
    IF z.n THEN LET r == SC(ZN(m)) IN [s |-> ZNeg(r.s), c |-> r.c]
    ELSE IF NLt(Deg(180), m) THEN LET r == SC(ZN(NSub(Deg(360), m))) IN [s |-> ZNeg(r.s), c |-> r.c]
    ELSE IF NLt(Deg(90), m) THEN LET r == SC(ZN(NSub(Deg(180), m))) IN [s |-> r.s, c |-> ZNeg(r.c)]
    ELSE IF NLt(Deg(45), m) THEN LET r == SC(ZN(NSub(Deg(90), m))) IN [s |-> r.c, c |-> r.s]
    ELSE Small(m)

\* 1 / sqrt(v), for v a little below one (Newton)
InvSqrt(v) == FoldLeft(LAMBDA y, i : NHalf(Mul(y, NSub(Up(<<3>>, D), Mul(v, Mul(y, y))))), One, [i \in 1..6 |-> i])

\* a place: its angles' sines and cosines, and the radius of curvature across the meridian
Place(lat, lon) ==
    LET a == SC(lat) b == SC(lon)
    IN  [sa |-> a.s, ca |-> a.c, so |-> b.s, co |-> b.c,
         n |-> Mul(Axis, InvSqrt(NSub(One, Mul(E2, Mul(a.s.m, a.s.m)))))]

\* earth-centred position at height h over a place
Centred(p, h) ==
    LET r == ZAdd(ZN(p.n), h)
        w == ZMulF(r, p.ca)
    IN  << ZMulF(w, p.co), ZMulF(w, p.so), ZMulF(ZAdd(ZN(Mul(p.n, NSub(One, E2))), h), p.sa) >>

\* rows: north, east, down
North(p) == << ZNeg(ZMulF(p.sa, p.co)), ZNeg(ZMulF(p.sa, p.so)), p.ca >>
East(p) == << ZNeg(p.so), p.co, Z(0) >>
Down(p) == << ZNeg(ZMulF(p.ca, p.co)), ZNeg(ZMulF(p.ca, p.so)), ZNeg(p.sa) >>
Frame(p) == << North(p), East(p), Down(p) >>

Dot(u, v) == ZSum([i \in DOMAIN u |-> ZMulF(u[i], v[i])])
Minus(u, v) == [i \in DOMAIN u |-> ZSub(u[i], v[i])]
Plus(u, v) == [i \in DOMAIN u |-> ZAdd(u[i], v[i])]
\* into a frame, and out of it
Into(F, v) == [i \in DOMAIN F |-> Dot(F[i], v)]
Out(F, w) == [j \in 1..3 |-> ZSum([i \in DOMAIN w |-> ZMulF(F[i][j], w[i])])]
Near(u, v, tol) == Len(u) = Len(v) /\ \A i \in DOMAIN u : ZNear(u[i], v[i], tol)
=============================================================================
