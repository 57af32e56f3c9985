--------------------------- MODULE HalfSpaceLaws ---------------------------
\* The measures of HalfSpace.tla: complementary, additive, symmetric, and 0 or everything for uncut boxes.
EXTENDS HalfSpace
CONSTANTS Coeffs, Lengths, Dims
VARIABLE s
Steps == {-2, 0, 1, 3}
Cases == UNION {[len : [1..d -> Lengths], a : [1..d -> Coeffs], c : -9..9] : d \in Dims}
Init == s \in {x \in Cases : \E k \in DOMAIN x.a : x.a[k] # 0}
Next == UNCHANGED s
Spec == Init /\ [][Next]_s
D == DOMAIN s.len
Minus == [k \in D |-> -s.a[k]]
All == ProdOver(D, LAMBDA k : s.len[k])
Half(k) == [s.len EXCEPT ![k] = 1]
Other(k) == [s.len EXCEPT ![k] = @ - 1]
\* the boundary is in a face of the box, or of a part of it
Aligned == LET A == Active(s.a, D) IN Cardinality(A) = 1 /\ \A k \in A : s.c % Mag(s.a[k]) = 0
Complement == /\ Volume(s.len, s.a, s.c) + Volume(s.len, Minus, -s.c) = All * Scale(s.a, D)
              /\ \A k \in D : 2 * (Moment(s.len, s.a, s.c, k) + Moment(s.len, Minus, -s.c, k)) = All * s.len[k] * MomentScale(s.a, D)
              /\ ~Aligned => \A k \in D : Flux(s.len, s.a, s.c, D, k) = -Flux(s.len, Minus, -s.c, D, k)
Uncut == ~Cut(s.len, s.a, s.c) => Volume(s.len, s.a, s.c) = (IF Full(s.len, s.a, s.c) THEN All * Scale(s.a, D) ELSE 0)
Bounded == Cut(s.len, s.a, s.c) => 0 < Volume(s.len, s.a, s.c) /\ Volume(s.len, s.a, s.c) < All * Scale(s.a, D)
Additive == \A k \in D : s.len[k] > 1 =>
    /\ Volume(s.len, s.a, s.c) = Volume(Half(k), s.a, s.c) + Volume(Other(k), s.a, s.c - s.a[k])
    /\ \A j \in D : Moment(s.len, s.a, s.c, j) = Moment(Half(k), s.a, s.c, j) + Moment(Other(k), s.a, s.c - s.a[k], j)
         + (IF j = k THEN 12 * (Cardinality(Active(s.a, D)) + 1) * Volume(Other(k), s.a, s.c - s.a[k]) ELSE 0)
    /\ ~Aligned => \A j \in D : Flux(s.len, s.a, s.c, D, j) = Flux(Half(k), s.a, s.c, D, j) + Flux(Other(k), s.a, s.c - s.a[k], D, j)
\* the normal is a over its length
Normal == \A j, k \in D : Flux(s.len, s.a, s.c, D, j) * s.a[k] = Flux(s.len, s.a, s.c, D, k) * s.a[j]
Laws == Complement /\ Uncut /\ Bounded /\ Additive /\ Normal
=============================================================================
