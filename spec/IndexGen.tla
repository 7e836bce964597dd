------------------------------ MODULE IndexGen ------------------------------
(* Histories of the spatial index, made by TLC -simulate from its           *)
(* specification, to be replayed on the implementation.                     *)
EXTENDS SpatialIndex, TLC, Json
CONSTANTS Many, Grid, Length, Phase
Ids == 1..Many
Coords == -Grid..Grid
VARIABLES es, hist

R(S) == RandomElement(S)
\* (the argument keeps TLC from evaluating this once and for all, and callers bind it by \E)
Rand4(h) == <<R(Coords), R(Coords), R(Coords), R(Coords)>>
Box(c) == <<IF c[1] < c[3] THEN c[1] ELSE c[3], IF c[2] < c[4] THEN c[2] ELSE c[4],
            IF c[1] < c[3] THEN c[3] ELSE c[1], IF c[2] < c[4] THEN c[4] ELSE c[2]>>
Log(op, id, box) == hist' = Append(hist, <<op, id, box>>)
Growing == (Len(hist) \div Phase) % 2 = 0      \* the history swells and shrinks

Init == es = <<>> /\ hist = <<>>
DoInsert == /\ Growing \/ R({1, 2, 3, 4, 5, 6} \cup {Len(hist)}) = 1
            /\ \E id \in Ids \ DOMAIN es : \E b \in {Rand4(hist)} : es' = With(es, id, Box(b)) /\ Log("insert", id, Box(b))
DoRemove == /\ ~Growing \/ R({1, 2, 3, 4, 5, 6} \cup {Len(hist)}) = 1
            /\ \E id \in DOMAIN es : es' = Without(es, id) /\ Log("remove", id, es[id])
DoAbsent == /\ R({1, 2, 3, 4, 5, 6} \cup {Len(hist)}) = 1
            /\ \E id \in Ids \ DOMAIN es : \E b \in {Rand4(hist)} : es' = es /\ Log("remove", id, Box(b))
DoQuery == es' = es /\ \E k \in 1..5, b \in {Rand4(hist)} : Log("query", k, Box(b))
DoClear == es /= <<>> /\ R(1..(30 + Len(hist))) = 1 /\ es' = <<>> /\ Log("clear", 0, <<0, 0, 0, 0>>)
Next == \/ /\ Len(hist) < Length
           /\ (DoInsert \/ DoRemove \/ DoAbsent \/ DoQuery \/ DoClear)
        \/ /\ Len(hist) = Length
           /\ PrintT("@@" \o ToJson(hist))
           /\ hist' = Append(hist, <<"end">>) /\ es' = es
=============================================================================
