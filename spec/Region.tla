------------------------------- MODULE Region -------------------------------
(***************************************************************************)
(* Regions of the plane in integer coordinates: axis-aligned boxes          *)
(* <<x1, y1, x2, y2>> and convex quadrilaterals (sequences of corners).     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

Meets(a, b) == a[1] <= b[3] /\ b[1] <= a[3] /\ a[2] <= b[4] /\ b[2] <= a[4]     \* overlap or touch
Overlap(a, b) == a[1] < b[3] /\ b[1] < a[3] /\ a[2] < b[4] /\ b[2] < a[4]       \* interiors share a point

Quad(b) == << <<b[3], b[4]>>, <<b[3], b[2]>>, <<b[1], b[2]>>, <<b[1], b[4]>> >>
Hull(q) == << Min({q[i][1] : i \in DOMAIN q}), Min({q[i][2] : i \in DOMAIN q}),
              Max({q[i][1] : i \in DOMAIN q}), Max({q[i][2] : i \in DOMAIN q}) >>

Succ(q, i) == IF i = Len(q) THEN 1 ELSE i + 1
Cross(a, b, p) == (b[1] - a[1]) * (p[2] - a[2]) - (b[2] - a[2]) * (p[1] - a[1])
Turns(q, p) == {Cross(q[i], q[Succ(q, i)], p) : i \in DOMAIN q}

\* p strictly inside the convex quadrilateral q, whichever way round its corners run
Inside(q, p) == LET t == Turns(q, p) IN (\A c \in t : c > 0) \/ (\A c \in t : c < 0)
Area2(q) == Cross(q[1], q[2], q[3]) + Cross(q[1], q[3], q[4])
Solid(q) == Area2(q) # 0
\* p strictly outside q (which has area): on the outer side of some edge
Outside(q, p) == IF Area2(q) > 0 THEN \E c \in Turns(q, p) : c < 0 ELSE \E c \in Turns(q, p) : c > 0

Normals(q) == {<<q[i][2] - q[Succ(q, i)][2], q[Succ(q, i)][1] - q[i][1]>> : i \in DOMAIN q}
Shadow(n, q) == {n[1] * q[i][1] + n[2] * q[i][2] : i \in DOMAIN q}
\* Separating axes: two convex figures are apart exactly when a normal of an edge of one separates them.
StrictlyApart(a, b) ==
    \E n \in (Normals(a) \cup Normals(b)) \ {<<0, 0>>} : Max(Shadow(n, a)) < Min(Shadow(n, b)) \/ Max(Shadow(n, b)) < Min(Shadow(n, a))
ShareInterior(a, b) ==
    /\ Solid(a) /\ Solid(b)
    /\ \A n \in (Normals(a) \cup Normals(b)) \ {<<0, 0>>} : Max(Shadow(n, a)) > Min(Shadow(n, b)) /\ Max(Shadow(n, b)) > Min(Shadow(n, a))
=============================================================================
