--------------------------- MODULE ImplFuncsLaws ---------------------------
\* The functions of ImplFuncs.tla are what they are documented to be: signs, symmetries, chain rules, periods.
EXTENDS ImplFuncs
CONSTANTS Reach
VARIABLES f, x
vars == <<f, x>>
O == <<1, 0, -1>>
Cart == [k |-> "cart"]
Sphere3 == [k |-> "sphere", c |-> O, r |-> 2]
Round(a, p, q) == [k |-> "ellipsoid", c |-> O, semi |-> <<p, p, q>>, sys |-> [k |-> "round", a |-> a]]
Two(a, b, s) == [k |-> "ellipsoid", c |-> O, semi |-> s, sys |-> [k |-> "two", a |-> a, b |-> b]]
Torus(a) == [k |-> "torus", c |-> O, a |-> a, R |-> 3, r |-> 1]
Cylinder(a) == [k |-> "cylinder", c |-> O, a |-> a, r |-> 2]
Mixed == [k |-> "dimlinear", w |-> <<1, -2, 3, 5, 0, -4, 2, 7>>]
Plane == [k |-> "plane", c |-> O, n |-> <<2, -1, 2>>, len |-> 3]
Catalogue == {Sphere3, Round(<<1, 1, 0>>, 2, 1), Two(<<1, 1, 0>>, <<0, 1, 1>>, <<1, 2, 3>>), Torus(<<0, 0, 1>>), Torus(<<1, -1, 1>>),
              Cylinder(<<1, 2, 2>>), Mixed, Plane, [k |-> "ellipsoid", c |-> O, semi |-> <<1, 2, 3>>, sys |-> Cart]}
Ring == [k |-> "annulus", c |-> <<1, -1>>, ri |-> 1, ro |-> 3]
Flat == {Ring, [k |-> "sphere", c |-> <<1, -1>>, r |-> 2], [k |-> "dimlinear", w |-> <<3, -1, 2, 6>>],
         [k |-> "ellipsoid", c |-> <<1, -1>>, semi |-> <<2, 1>>, sys |-> [k |-> "axis", a |-> <<3, 4>>]]}
Init == (f \in Catalogue /\ x \in [1..3 -> {-Reach}]) \/ (f \in Flat /\ x \in [1..2 -> {-Reach}])
Next == \E k \in 1..Len(x) : x[k] < Reach /\ x' = [x EXCEPT ![k] = @ + 1] /\ f' = f
Spec == Init /\ [][Next]_vars
d == Len(x)
\* derivatives come out whole, and derivatives of derivatives agree
Tidy == \A k \in 1..d : LET F(h) == W[h] * At(f, x, k, h) G(h) == V[h] * At(f, x, k, h) IN Over(F) % 12 = 0 /\ Over(G) % 12 = 0
Symmetric == \A k, l \in 1..d : k # l => Second(f, x, k, l) = Second(f, x, l, k)
Chained == LET M == IF d = 2 THEN << <<1, 2>>, <<-1, 1>> >> ELSE << <<1, 0, 2>>, <<0, -1, 1>>, <<1, 1, 0>> >>
               s == IF d = 2 THEN <<1, 0>> ELSE <<0, 1, -1>>
               g == [k |-> "affine", f |-> f, M |-> M, s |-> s]
               y == Plus([k \in 1..d |-> Dot(M[k], x)], s) IN
    /\ Val(g, x) = Val(f, y)
    /\ Grad(g, x) = [k \in 1..d |-> Dot(Column(M, k), Grad(f, y))]
    /\ \A k, l \in 1..d : Second(g, x, k, l) = Total([i \in 1..d |-> Dot(Scale(Column(M, l), M[i][k]), [j \in 1..d |-> Second(f, y, i, j)])])
Combined == LET n == [k |-> "neg", f |-> f] a == [k |-> "add", f |-> f, g |-> f] s == [k |-> "sub", f |-> f, g |-> f] IN
    /\ Val(n, x) = -Val(f, x) /\ Grad(n, x) = Scale(Grad(f, x), -1)
    /\ Val(a, x) = 2 * Den(f) * Val(f, x) /\ Val(s, x) = 0
\* documented: negative inside and positive far away
Inside ==
    /\ f.k \in {"sphere", "cylinder", "ellipsoid"} => Val(f, f.c) < 0 /\ (Norm2(Diff(x, f.c)) > 3 * 9 /\ f.k # "cylinder" => Val(f, x) > 0)
    /\ f.k = "annulus" => LET q == Norm2(Diff(x, f.c)) IN (Val(f, x) < 0) = (q > 1 /\ q < 9)
    /\ f.k = "torus" => Val(f, f.c) > 0
    /\ f = Torus(<<0, 0, 1>>) => LET v == Diff(x, f.c) IN (v[3] = 0 => ((Val(f, x) < 0) = (v[1]^2 + v[2]^2 > 4 /\ v[1]^2 + v[2]^2 < 16)))
\* no change along or around axes
Axial == /\ f.k = "cylinder" => Val(f, Plus(x, f.a)) = Val(f, x)
         /\ f.k \in {"torus", "cylinder"} => Val(f, Diff(Scale(f.c, 2), x)) = Val(f, x)
         /\ (f.k = "ellipsoid" /\ f.sys.k = "round") =>     \* as with any two directions across the axis
                LET b == <<0, 0, 1>> a == Cross(f.sys.a, b) g == Two(a, Cross(a, f.sys.a), f.semi)
                IN Val(g, x) * Den(f) = Val(f, x) * Den(g)
Ellipsoids == (f.k = "ellipsoid" /\ f.sys.k # "round") =>
    LET v == Directions(f.sys, d) IN /\ \A i, j \in 1..d : i # j => Dot(v[i], v[j]) = 0
                                     /\ (d = 3 => \E s \in 1..1000 : Cross(v[1], v[2]) = Scale(v[3], s))
                                     /\ (d = 2 => v[1][1] * v[2][2] - v[1][2] * v[2][1] > 0)
Corners == (f.k = "dimlinear" /\ \A k \in 1..d : x[k] \in 0..1) =>
    Val(f, x) = f.w[1 + Total([k \in 1..d |-> x[k] * 2^(k - 1)])]
Maps == d = 3 =>
    LET t == [A |-> << <<1, 2, 0>>, <<0, 1, -1>>, <<2, 0, 1>> >>, b |-> <<1, 2, 3>>, s |-> 2]
        u == [A |-> << <<0, 1, 1>>, <<1, 0, 0>>, <<-1, 2, 1>> >>, b |-> <<-1, 0, 4>>, s |-> 3] IN
    Apply(Compose(t, u), x) = Plus([k \in 1..3 |-> Dot(t.A[k], Apply(u, x))], Scale(t.b, u.s))
\* ------------------------------------------------------------------ periodic surfaces (at twelfths x)
Shift(y) == <<y[2], y[3], y[1]>>
Periodic == d = 3 => \A n \in Surfaces : \A m \in {<<1, 1, 1>>, <<2, 1, 3>>} :
    /\ \A k \in 1..3 : m[k] < 5 => TVal(n, m, [x EXCEPT ![k] = @ + 12 \div m[k]]) = TVal(n, m, x)
    /\ TVal(n, <<1, 1, 1>>, Shift(x)) = TVal(n, <<1, 1, 1>>, x)
    /\ LET g == TGrad(n, <<1, 1, 1>>, x, 3) IN Shift(g) = TGrad(n, <<1, 1, 1>>, Shift(x), 3)
\* single harmonics: the derivative is the function a quarter of a period on, in that variable
Quarter == d = 3 => \A n \in {"SchwarzDiamond", "SchwarzPrimitive"} : \A k \in 1..3 :
    LET g == SelectSeq(Surface(n), LAMBDA t : Has(t, k)) IN
    TGrad(n, <<1, 1, 1>>, x, 3)[k] = SumTerms(g, <<1, 1, 1>>, [x EXCEPT ![k] = @ + 3])
Waves == d = 3 =>
    /\ THess("SchwarzDiamond", <<2, 1, 3>>, x, 3)[1] = Scale(TVal("SchwarzDiamond", <<2, 1, 3>>, x), -4)
    /\ LET h == THess("Schoen", <<1, 1, 1>>, x, 3) IN Plus(Plus(h[1], h[4]), h[6]) = Scale(TVal("Schoen", <<1, 1, 1>>, x), -2)
    /\ \A n \in Surfaces : THess(n, <<1, 2, 1>>, x, 2) = LET h == THess(n, <<1, 2, 1>>, x, 3) IN <<h[1], h[2], h[4]>>
=============================================================================
