----------------------------- MODULE Polynomial -----------------------------
\* Polynomials of tensor-product type with integer coefficients in the basis of Bernstein polynomials ("B") or of
\* monomials ("M"), and what operations on them mean as functions. A polynomial is
\* [basis, order, coefs]: order[k] coefficients in direction k, coefs lexicographic (first direction fastest), each a
\* sequence of components. Points are integers over a common denominator; values are numerators over den^(sum of degrees).
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt
Pw(b, e) == FoldLeft(LAMBDA r, j : r * b, 1, [j \in 1..e |-> j])
ProdOf(s) == FoldLeft(LAMBDA r, x : r * x, 1, s)
SumOf(s) == FoldLeft(LAMBDA r, x : r + x, 0, s)
RECURSIVE Choose(_, _)
Choose(n, i) == IF i < 0 \/ i > n THEN 0 ELSE IF i = 0 \/ i = n THEN 1 ELSE Choose(n - 1, i - 1) + Choose(n - 1, i)
RECURSIVE Bernstein(_, _, _, _, _)
\* der-th derivative of the i-th Bernstein polynomial of degree n at a/den, over den^n
Bernstein(n, i, a, den, der) ==
    IF n < 0 \/ i < 0 \/ i > n THEN 0
    ELSE IF der = 0 THEN Choose(n, i) * Pw(a, i) * Pw(den - a, n - i)
    ELSE n * den * (Bernstein(n - 1, i - 1, a, den, der - 1) - Bernstein(n - 1, i, a, den, der - 1))
Monomial(n, i, a, den, der) ==
    IF der > i THEN 0 ELSE FoldLeft(LAMBDA r, j : r * (i - j), 1, [j \in 1..der |-> j - 1]) * Pw(a, i - der) * Pw(den, n - i + der)
Basis(b, n, i, a, den, der) == IF b = "B" THEN Bernstein(n, i, a, den, der) ELSE Monomial(n, i, a, den, der)
Stride(order, k) == ProdOf(SubSeq(order, 1, k - 1))
Digit(order, j, k) == ((j - 1) \div Stride(order, k)) % order[k]
Degree(p) == SumOf(p.order) - Len(p.order)
Components(p) == Len(p.coefs[1])
Polynomial(p) == /\ p.basis \in {"B", "M"} /\ \A k \in DOMAIN p.order : p.order[k] >= 1
                 /\ Len(p.coefs) = ProdOf(p.order)
\* derivative of orders ders at pt/den, every component
Value(p, pt, den, ders) ==
    LET T == [k \in DOMAIN p.order |-> [i \in 0..(p.order[k] - 1) |-> Basis(p.basis, p.order[k] - 1, i, pt[k], den, ders[k])]]
        W == [j \in DOMAIN p.coefs |-> ProdOf([k \in DOMAIN p.order |-> T[k][Digit(p.order, j, k)]])]
    IN [c \in 1..Components(p) |-> SumOf([j \in DOMAIN p.coefs |-> W[j] * p.coefs[j][c]])]
Zeros(d) == [k \in 1..d |-> 0]
One(d, i) == [k \in 1..d |-> IF k = i THEN 1 ELSE 0]
Two(d, i, j) == [k \in 1..d |-> (IF k = i THEN 1 ELSE 0) + (IF k = j THEN 1 ELSE 0)]
At(p, pt, den) == Value(p, pt, den, Zeros(Len(p.order)))
Gradient(p, pt, den) == LET d == Len(p.order) IN [i \in 1..d |-> Value(p, pt, den, One(d, i))]
\* the upper triangle, row by row
Pairs(d) == CASE d = 1 -> << <<1, 1>> >> [] d = 2 -> << <<1, 1>>, <<1, 2>>, <<2, 2>> >>
              [] OTHER -> << <<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 2>>, <<2, 3>>, <<3, 3>> >>
Hessian(p, pt, den) == LET d == Len(p.order) IN [h \in DOMAIN Pairs(d) |-> Value(p, pt, den, Two(d, Pairs(d)[h][1], Pairs(d)[h][2]))]

\* ----- operations: the order of the result, and its value at pt/den over den^(sum of the degrees of the result)
MaxOf(a, b) == IF a > b THEN a ELSE b
Scaled(v, f) == [c \in DOMAIN v |-> v[c] * f]
SumOrder(p, q) == [k \in DOMAIN p.order |-> MaxOf(p.order[k], q.order[k])]
ProductOrder(p, q) == [k \in DOMAIN p.order |-> p.order[k] + q.order[k] - 1]
DegreeOf(order) == SumOf(order) - Len(order)
Lift(p, order, pt, den) == Scaled(At(p, pt, den), Pw(den, DegreeOf(order) - Degree(p)))
SumAt(p, q, sign, pt, den) == LET n == SumOrder(p, q) a == Lift(p, n, pt, den) b == Lift(q, n, pt, den)
                              IN [c \in DOMAIN a |-> a[c] + sign * b[c]]
ProductAt(p, q, pt, den) == LET a == At(p, pt, den) b == At(q, pt, den) IN [c \in DOMAIN a |-> a[c] * b[c]]
ComposeOrder(p, q) == [k \in DOMAIN q.order |-> 1 + SumOf([j \in DOMAIN p.order |-> (p.order[j] - 1) * (q.order[k] - 1)])]
ComposeAt(p, q, pt) == At(p, At(q, pt, 1), 1)
\* facets are numbered 2 * direction + side (from zero)
FacetDir(id) == id \div 2 + 1
Without(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Insert(s, k, x) == SubSeq(s, 1, k - 1) \o <<x>> \o SubSeq(s, k, Len(s))
FacetOrder(p, id) == Without(p.order, FacetDir(id))
\* over den^(degree of p): the facet's value is that over den^(its degree)
FacetAt(p, id, pt, den) == At(p, Insert(pt, FacetDir(id), (id % 2) * den), den)
DerivOrder(p, k) == [p.order EXCEPT ![k] = @ - 1]
DerivAt(p, k, pt, den) == Value(p, pt, den, One(Len(p.order), k))
\* both act on the coefficients (which for Bernstein polynomials are those of the function)
WithCoefs(p, G(_)) == [p EXCEPT !.coefs = [j \in DOMAIN p.coefs |-> G(p.coefs[j])]]
Linear(p, a, shift) == LET G(v) == [c \in DOMAIN v |-> a * v[c] + shift[c]] IN WithCoefs(p, G)
\* the box old (corners) goes to the box new, component by component
Image(p, old, new) == LET G(v) == [c \in DOMAIN v |-> (v[c] - old[1][c]) * ((new[2][c] - new[1][c]) \div (old[2][c] - old[1][c])) + new[1][c]]
                      IN WithCoefs(p, G)
\* corners of the new domain in halves, pt in halves, result over 4^degree
RescaleAt(p, lo, hi, pt) == At(p, [k \in DOMAIN pt |-> 2 * lo[k] + pt[k] * (hi[k] - lo[k])], 4)
=============================================================================
