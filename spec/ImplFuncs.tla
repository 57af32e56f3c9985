----------------------------- MODULE ImplFuncs -----------------------------
\* The library of implicit functions: what each one is worth at integer points, as a numerator over Den(f). Only values
\* are defined here; gradients and Hessians follow from them by difference formulas that are exact up to degree four.
\* Triply periodic surfaces live at multiples of 1/12, with values in (Z + Z sqrt 3) / 8.
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Sq(a) == a * a
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Head(s) + Total(Tail(s))
RECURSIVE Times(_)
Times(s) == IF s = <<>> THEN 1 ELSE Head(s) * Times(Tail(s))
Dot(a, b) == Total([k \in 1..Len(a) |-> a[k] * b[k]])
Diff(a, b) == [k \in 1..Len(a) |-> a[k] - b[k]]
Plus(a, b) == [k \in 1..Len(a) |-> a[k] + b[k]]
Scale(a, s) == [k \in 1..Len(a) |-> s * a[k]]
Norm2(a) == Dot(a, a)
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Turn(a) == <<-a[2], a[1]>>
Unit(d, k) == [j \in 1..d |-> IF j = k THEN 1 ELSE 0]
\* ------------------------------------------------------------------ reference systems: orthogonal integer directions
\* s.k: "cart", "axis" (first axis in the plane), "two" (two directions spanning the first coordinate plane)
Directions(s, d) ==
    CASE s.k = "cart" -> [j \in 1..d |-> Unit(d, j)]
      [] s.k = "axis" -> <<s.a, Turn(s.a)>>
      [] s.k = "two" -> LET z == Cross(s.a, s.b) IN <<s.a, Cross(z, s.a), z>>
\* ------------------------------------------------------------------ affine maps p -> (A p + b) / s
Apply(t, p) == [k \in 1..Len(p) |-> Dot(t.A[k], p) + t.b[k]]
Column(A, j) == [k \in 1..Len(A) |-> A[k][j]]
Compose(t, u) == [A |-> [k \in 1..Len(t.A) |-> [j \in 1..Len(t.A) |-> Dot(t.A[k], Column(u.A, j))]],
                  b |-> [k \in 1..Len(t.A) |-> Dot(t.A[k], u.b) + t.b[k] * u.s], s |-> t.s * u.s]
\* ------------------------------------------------------------------ values
RECURSIVE Den(_)
Den(f) ==
    CASE f.k \in {"cylinder", "torus"} -> Norm2(f.a)
      [] f.k = "ellipsoid" -> IF f.sys.k = "round" THEN Norm2(f.sys.a) * Sq(f.semi[1]) * Sq(f.semi[3])
                              ELSE LET v == Directions(f.sys, Len(f.c)) IN Times([k \in 1..Len(f.c) |-> Norm2(v[k]) * Sq(f.semi[k])])
      [] f.k = "constant" -> f.den
      [] f.k = "plane" -> f.len
      [] f.k \in {"neg", "affine"} -> Den(f.f)
      [] f.k \in {"add", "sub"} -> Den(f.f) * Den(f.g)
      [] OTHER -> 1
MaxOf(s) == CHOOSE v \in {s[k] : k \in 1..Len(s)} : \A k \in 1..Len(s) : s[k] <= v
Mag(a) == IF a < 0 THEN -a ELSE a
RECURSIVE Val(_, _)
Val(f, x) ==
    CASE f.k = "sphere" -> Norm2(Diff(x, f.c)) - Sq(f.r)
      [] f.k = "cylinder" -> LET d == Diff(x, f.c) IN Norm2(f.a) * (Norm2(d) - Sq(f.r)) - Sq(Dot(d, f.a))
      [] f.k = "ellipsoid" /\ f.sys.k = "round" ->   \* any two directions around the third axis
            LET d == Diff(x, f.c) n == Norm2(f.sys.a) p == Sq(Dot(d, f.sys.a)) IN
            (n * Norm2(d) - p) * Sq(f.semi[3]) + p * Sq(f.semi[1]) - Den(f)
      [] f.k = "ellipsoid" ->
            LET d == Diff(x, f.c) v == Directions(f.sys, Len(x)) D == Den(f) IN
            Total([k \in 1..Len(x) |-> Sq(Dot(d, v[k])) * (D \div (Norm2(v[k]) * Sq(f.semi[k])))]) - D
      [] f.k = "annulus" -> LET q == Norm2(Diff(x, f.c)) IN (q - Sq(f.ri)) * (q - Sq(f.ro))
      [] f.k = "torus" ->   \* at distance r from the circle of radius R around the axis
            LET d == Diff(x, f.c) q == Norm2(d) n == Norm2(f.a) IN
            n * Sq(q + Sq(f.R) - Sq(f.r)) - 4 * Sq(f.R) * (n * q - Sq(Dot(d, f.a)))
      [] f.k = "constant" -> f.v
      [] f.k = "plane" -> Dot(Diff(x, f.c), f.n)      \* distance to it: over the length of n
      [] f.k = "dimlinear" ->
            Total([j \in 1..Len(f.w) |-> f.w[j] * Times([k \in 1..Len(x) |-> IF ((j - 1) \div 2^(k - 1)) % 2 = 1 THEN x[k] ELSE 1 - x[k]])])
      [] f.k = "square" -> MaxOf([k \in 1..Len(x) |-> Mag(x[k])]) - 1
      [] f.k = "affine" -> Val(f.f, Plus([k \in 1..Len(x) |-> Dot(f.M[k], x)], f.s))     \* transformed by the inverse of M x + s
      [] f.k = "neg" -> -Val(f.f, x)
      [] f.k = "add" -> Val(f.f, x) * Den(f.g) + Val(f.g, x) * Den(f.f)
      [] f.k = "sub" -> Val(f.f, x) * Den(f.g) - Val(f.g, x) * Den(f.f)
At(f, x, k, h) == Val(f, [x EXCEPT ![k] = @ + h])
At2(f, x, k, h, l, g) == Val(f, [x EXCEPT ![k] = @ + h, ![l] = @ + g])
W == [h \in (-2)..2 |-> CASE h = -2 -> 1 [] h = -1 -> -8 [] h = 0 -> 0 [] h = 1 -> 8 [] h = 2 -> -1]
V == [h \in (-2)..2 |-> CASE h = -2 -> -1 [] h = -1 -> 16 [] h = 0 -> -30 [] h = 1 -> 16 [] h = 2 -> -1]
Over(F(_)) == F(-2) + F(-1) + F(0) + F(1) + F(2)
Grad(f, x) == [k \in 1..Len(x) |-> LET F(h) == W[h] * At(f, x, k, h) IN Over(F) \div 12]
Second(f, x, k, l) ==
    IF k = l THEN LET F(h) == V[h] * At(f, x, k, h) IN Over(F) \div 12
    ELSE LET G(h) == W[h] * (LET F(g) == W[g] * At2(f, x, k, h, l, g) IN Over(F) \div 12) IN Over(G) \div 12
Pairs(d) == IF d = 2 THEN << <<1, 1>>, <<1, 2>>, <<2, 2>> >>
            ELSE << <<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 2>>, <<2, 3>>, <<3, 3>> >>
Hess(f, x) == [p \in 1..Len(Pairs(Len(x))) |-> Second(f, x, Pairs(Len(x))[p][1], Pairs(Len(x))[p][2])]
\* the square has a gradient where one coordinate is the largest
Smooth(x) == Cardinality({k \in 1..Len(x) : Mag(x[k]) = MaxOf([j \in 1..Len(x) |-> Mag(x[j])])}) = 1 /\ x # Scale(x, 0)
SquareGrad(x) == [k \in 1..Len(x) |-> IF \A j \in 1..Len(x) : j # k => Mag(x[j]) < Mag(x[k]) THEN (IF x[k] > 0 THEN 1 ELSE -1) ELSE 0]
\* ------------------------------------------------------------------ triply periodic minimal surfaces
\* sums of products of sines and cosines of 2 pi h m x; a factor is [v, h, t]: variable, harmonic, "s" or "c"
c1(v) == [v |-> v, h |-> 1, t |-> "c"]
c2(v) == [v |-> v, h |-> 2, t |-> "c"]
s1(v) == [v |-> v, h |-> 1, t |-> "s"]
T(c, F) == [c |-> c, F |-> F]
Surface(name) ==
    CASE name = "Schoen" -> <<T(1, <<s1(1), c1(2)>>), T(1, <<s1(2), c1(3)>>), T(1, <<s1(3), c1(1)>>)>>
      [] name = "SchoenIWP" -> <<T(2, <<c1(1), c1(2)>>), T(2, <<c1(2), c1(3)>>), T(2, <<c1(3), c1(1)>>),
                                T(-1, <<c2(1)>>), T(-1, <<c2(2)>>), T(-1, <<c2(3)>>)>>
      [] name = "SchoenFRD" -> <<T(4, <<c1(1), c1(2), c1(3)>>), T(-1, <<c2(1), c2(2)>>), T(-1, <<c2(2), c2(3)>>), T(-1, <<c2(3), c2(1)>>)>>
      [] name = "FischerKochS" -> <<T(1, <<c2(1), s1(2), c1(3)>>), T(1, <<c1(1), c2(2), s1(3)>>), T(1, <<s1(1), c1(2), c2(3)>>)>>
      [] name = "SchwarzDiamond" -> <<T(1, <<c1(1), c1(2), c1(3)>>), T(-1, <<s1(1), s1(2), s1(3)>>)>>
      [] name = "SchwarzPrimitive" -> <<T(1, <<c1(1)>>), T(1, <<c1(2)>>), T(1, <<c1(3)>>)>>
Surfaces == {"Schoen", "SchoenIWP", "SchoenFRD", "FischerKochS", "SchwarzDiamond", "SchwarzPrimitive"}
\* twice the cosine of j twelfths of a turn, as <<a, b>> for a + b sqrt 3
Cos2(j) == << <<2, 0>>, <<0, 1>>, <<1, 0>>, <<0, 0>>, <<-1, 0>>, <<0, -1>>, <<-2, 0>>, <<0, -1>>, <<-1, 0>>, <<0, 0>>, <<1, 0>>, <<0, 1>> >>[(j % 12) + 1]
Mul(p, q) == <<p[1] * q[1] + 3 * p[2] * q[2], p[1] * q[2] + p[2] * q[1]>>
Factor(F, m, x) == LET j == F.h * m[F.v] * x[F.v] IN Cos2(IF F.t = "c" THEN j ELSE j - 3)
RECURSIVE Product(_, _, _)
Product(F, m, x) == IF F = <<>> THEN <<1, 0>> ELSE Mul(Factor(Head(F), m, x), Product(Tail(F), m, x))
Term(t, m, x) == LET p == Product(t.F, m, x) IN Scale(p, t.c * 2^(3 - Len(t.F)))
RECURSIVE SumTerms(_, _, _)
SumTerms(ts, m, x) == IF ts = <<>> THEN <<0, 0>> ELSE Plus(Term(Head(ts), m, x), SumTerms(Tail(ts), m, x))
\* derivative along a variable, per 2 pi (no term has two factors of a variable)
Has(t, v) == \E k \in 1..Len(t.F) : t.F[k].v = v
DTerm(t, v, m) == LET k == CHOOSE k \in 1..Len(t.F) : t.F[k].v = v IN
    T(t.c * t.F[k].h * m[v] * (IF t.F[k].t = "s" THEN 1 ELSE -1), [t.F EXCEPT ![k].t = IF @ = "s" THEN "c" ELSE "s"])
Derive(ts, v, m) == LET S == SelectSeq(ts, LAMBDA t : Has(t, v)) IN [k \in 1..Len(S) |-> DTerm(S[k], v, m)]
TVal(name, m, x) == SumTerms(Surface(name), m, x)
TGrad(name, m, x, d) == [k \in 1..d |-> SumTerms(Derive(Surface(name), k, m), m, x)]
THess(name, m, x, d) == [p \in 1..Len(Pairs(d)) |-> SumTerms(Derive(Derive(Surface(name), Pairs(d)[p][1], m), Pairs(d)[p][2], m), m, x)]
\* a + b sqrt 3 in thousandths
Milli(p) == 1000 * p[1] + (1732 * p[2]) + ((51 * p[2]) \div 1000)
=============================================================================
