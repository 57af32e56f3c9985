-------------------------- MODULE PolynomialLaws --------------------------
\* The bases and operations of Polynomial.tla behave as such: partition of unity, derivatives (exact difference
\* formulas), conversions, products and facets.
EXTENDS Polynomial
CONSTANTS MaxDegree, MaxDen
VARIABLES b, n, i, a, den
vars == <<b, n, i, a, den>>
Init == /\ b \in {"B", "M"} /\ n \in 0..MaxDegree /\ i \in 0..MaxDegree /\ i <= n /\ den \in 1..MaxDen /\ a = -2 * den
Next == a < 2 * den /\ a' = a + 1 /\ UNCHANGED <<b, n, i, den>>
Spec == Init /\ [][Next]_vars
F(x, der) == Basis(b, n, i, x, den, der)
Unity == SumOf([j \in 1..(n + 1) |-> Bernstein(n, j - 1, a, den, 0)]) = Pw(den, n)
Flat == \A d \in 1..3 : SumOf([j \in 1..(n + 1) |-> Bernstein(n, j - 1, a, den, d)]) = 0
Symmetric == Bernstein(n, i, a, den, 0) = Bernstein(n, n - i, den - a, den, 0)
\* difference formulas exact to degree four
First == n <= 4 => \A d \in 0..2 : den * (F(a - 2, d) - 8 * F(a - 1, d) + 8 * F(a + 1, d) - F(a + 2, d)) = 12 * F(a, d + 1)
Vanish == \A d \in (n + 1)..(n + 2) : F(a, d) = 0
\* x = sum of i/n B_i; a monomial is a Bernstein polynomial times binomials
Mono == n > 0 => SumOf([j \in 1..(n + 1) |-> (j - 1) * Bernstein(n, j - 1, a, den, 0)]) = n * a * Pw(den, n - 1)
Convert == Choose(n, i) * Monomial(n, i, a, den, 0) = SumOf([j \in 1..(n + 1) |-> Choose(j - 1, i) * Bernstein(n, j - 1, a, den, 0)])
\* operations: on p = e_i (first direction), q = e_0 + 2 e_last in two directions
P1 == [basis |-> b, order |-> <<n + 1, 2>>, coefs |-> [j \in 1..(2 * (n + 1)) |-> IF j = i + 1 THEN <<1>> ELSE IF j = 2 * (n + 1) THEN <<3>> ELSE <<0>>]]
Q1 == [basis |-> b, order |-> <<2, 3>>, coefs |-> << <<1>>, <<0>>, <<0>>, <<2>>, <<-1>>, <<1>> >>]
Lifting == LET pt == <<a, 1>> IN
    /\ SumAt(P1, Q1, -1, pt, den) = [c \in 1..1 |-> SumAt(P1, Q1, 1, pt, den)[c] - 2 * Lift(Q1, SumOrder(P1, Q1), pt, den)[c]]
    /\ ProductAt(P1, Q1, pt, den) = ProductAt(Q1, P1, pt, den)
    /\ ProductOrder(P1, Q1) = ProductOrder(Q1, P1) /\ DegreeOf(ProductOrder(P1, Q1)) = Degree(P1) + Degree(Q1)
    /\ Polynomial(P1) /\ Polynomial(Q1)
Leibniz == LET pt == <<a, 1>> IN n <= 2 =>
    LET G(x) == ProductAt(P1, Q1, <<x, 1>>, den)[1] IN
    den * (G(a - 2) - 8 * G(a - 1) + 8 * G(a + 1) - G(a + 2))
        = 12 * (Gradient(P1, pt, den)[1][1] * At(Q1, pt, den)[1] + At(P1, pt, den)[1] * Gradient(Q1, pt, den)[1][1])
Coefficients == b = "B" => LET pt == <<a, 1>> IN
    /\ At(Linear(P1, -2, <<5>>), pt, den)[1] = -2 * At(P1, pt, den)[1] + 5 * Pw(den, Degree(P1))
    /\ At(Image(P1, << <<1>>, <<2>> >>, << <<3>>, <<7>> >>), pt, den)[1] = 4 * At(P1, pt, den)[1] - Pw(den, Degree(P1))
Facets == \A id \in 0..3 : LET x == FacetAt(P1, id, <<a>>, den) IN
    /\ FacetOrder(P1, id) = <<P1.order[2 - id \div 2]>>
    /\ x = At(P1, IF id < 2 THEN <<(id % 2) * den, a>> ELSE <<a, (id % 2) * den>>, den)
=============================================================================
