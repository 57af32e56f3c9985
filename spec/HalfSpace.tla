----------------------------- MODULE HalfSpace -----------------------------
\* The part of a box where a.x < c, measured exactly: integers over common denominators.
\* len: sides of the box, whose lower corner is the origin of x;  a: integers, c: an integer in the units of len
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, Functions, SequencesExt
Pow(b, e) == FoldLeft(LAMBDA r, j : r * b, 1, [j \in 1..e |-> j])
Fact(n) == FoldLeft(LAMBDA r, j : r * j, 1, [j \in 1..n |-> j])
Mag(x) == IF x < 0 THEN -x ELSE x
Over(S, F(_)) == MapThenSumSet(F, S)
ProdOver(S, F(_)) == FoldLeft(LAMBDA r, k : r * F(k), 1, SetToSeq(S))
Box(len) == DOMAIN len
Active(a, D) == {k \in D : a[k] # 0}
\* the same half-space after turning the directions where a is negative around
Turned(len, a, c) == c - Over(DOMAIN len, LAMBDA k : IF a[k] < 0 THEN a[k] * len[k] ELSE 0)
\* the corners of the box in the directions S, as the sets of directions at their far side
SignOf(v) == IF Cardinality(v) % 2 = 0 THEN 1 ELSE -1
Rest(len, a, c, v) == LET r == c - Over(v, LAMBDA k : Mag(a[k]) * len[k]) IN IF r > 0 THEN r ELSE 0
\* m! prod |a| times the measure in the directions D, for non-negative directions (c: turned)
Content(len, a, c, D) ==
    LET A == Active(a, D) m == Cardinality(A)
        sum == IF m = 0 THEN (IF c > 0 THEN 1 ELSE 0)
               ELSE Over(SUBSET A, LAMBDA v : SignOf(v) * Pow(Rest(len, a, c, v), m))
    IN sum * ProdOver(D \ A, LAMBDA k : len[k])
Scale(a, D) == LET A == Active(a, D) IN Fact(Cardinality(A)) * ProdOver(A, LAMBDA k : Mag(a[k]))
\* 12 (m+1)! prod |a| times the first moment in direction k, from the (turned) corner
MomentTurned(len, a, c, D, k) ==
    LET A == Active(a, D) m == Cardinality(A) IN
    IF k \in A THEN ProdOver(D \ A, LAMBDA j : len[j]) * (12 \div Mag(a[k])) *
        Over(SUBSET A, LAMBDA v : LET r == Rest(len, a, c, v) IN
             SignOf(v) * (Pow(r, m + 1) + (IF k \in v THEN (m + 1) * Mag(a[k]) * len[k] * Pow(r, m) ELSE 0)))
    ELSE 6 * (m + 1) * len[k] * Content(len, a, c, D)
MomentScale(a, D) == 12 * (Cardinality(Active(a, D)) + 1) * Scale(a, D)

Volume(len, a, c) == Content(len, a, Turned(len, a, c), DOMAIN len)
Moment(len, a, c, k) ==
    LET D == DOMAIN len t == Turned(len, a, c) m == MomentTurned(len, a, t, D, k) IN
    IF a[k] < 0 THEN 12 * (Cardinality(Active(a, D)) + 1) * len[k] * Content(len, a, t, D) - m ELSE m
\* the integral of the outward unit normal over the boundary a.x = c within the directions D (times Scale(a, D))
Flux(len, a, c, D, k) ==
    IF a[k] = 0 THEN 0 ELSE
    LET t == Turned([j \in D |-> len[j]], a, c) E == D \ {k} IN
    (IF a[k] < 0 THEN -1 ELSE 1) * Cardinality(Active(a, D)) * Mag(a[k])
      * (Content(len, a, t, E) - Content(len, a, t - Mag(a[k]) * len[k], E))
\* restriction to where the directions in v are at their far side
At(len, a, c, v) == c - Over(v, LAMBDA k : a[k] * len[k])
\* faces of the box in the directions D fixing E: their far sides
Sides(E) == SUBSET E
\* no corner lies on the boundary
Generic(len, a, c) == \A v \in SUBSET DOMAIN len : At(len, a, c, v) # 0
Cut(len, a, c) == (\E v \in SUBSET DOMAIN len : At(len, a, c, v) > 0) /\ (\E v \in SUBSET DOMAIN len : At(len, a, c, v) < 0)
Full(len, a, c) == \A v \in SUBSET DOMAIN len : At(len, a, c, v) >= 0
\* extents in direction k of the edges of the part of the box (in q-ths): along edges of the box, and of its boundary in the faces
EdgeExtent(len, a, c, k, q) ==
    Over(Sides(DOMAIN len \ {k}), LAMBDA v :
        LET t == Turned([j \in {k} |-> len[j]], a, At(len, a, c, v)) IN
        Content(len, a, t, {k}) * (q \div Scale(a, {k})))
\* the segment of the boundary within the face of directions {j, k}
SegmentExtent(len, a, c, j, k, q) == LET D == {j, k} IN (Mag(Flux(len, a, c, D, j)) * (q \div Scale(a, D)))
BoundaryExtent(len, a, c, k, q) ==
    LET D == DOMAIN len IN
    Over(D \ {k}, LAMBDA j : LET E == D \ {j, k} IN Over(Sides(E), LAMBDA v : SegmentExtent(len, a, At(len, a, c, v), j, k, q)))
=============================================================================
