--------------------------- MODULE ImplFuncsJudge ---------------------------
\* Answers of the C++ implicit functions, judged by ImplFuncs.tla. o.f: the function; o.pts: points (of its domain).
EXTENDS ImplFuncs, Json, IOUtils, TLC
Obs == ndJsonDeserialize(IOEnv.OBS)
VARIABLE i
Ps(o) == 1..Len(o.pts)
\* a plane grows linearly along its normal: as distance or with the given normal's length
ExactOk(o) == LET f == o.f IN
    \E a \in IF f.k = "plane" THEN {1, f.len} ELSE {1} :
    \A p \in Ps(o) : LET x == o.pts[p] IN /\ o.vals[p] = a * Val(f, x)
                                          /\ o.grads[p] = Scale(Grad(f, x), a)
                                          /\ o.hess[p] = Scale(Hess(f, x), a)
Origin(o, x) == IF o.f.k = "square" THEN x ELSE Plus([k \in 1..Len(x) |-> Dot(o.f.M[k], x)], o.f.s)
SquareG(o, x) == LET g == SquareGrad(Origin(o, x)) IN
    IF o.f.k = "square" THEN g ELSE [k \in 1..Len(x) |-> Dot(Column(o.f.M, k), g)]
SquareOk(o) == \A p \in Ps(o) : LET x == o.pts[p] IN
    /\ o.vals[p] = Val(o.f, x)
    /\ Smooth(Origin(o, x)) => o.grads[p] = SquareG(o, x)
Within(v, e) == e[1] <= v /\ v <= e[2]
ItvOk(o) == LET f == o.f IN
    \E a \in IF f.k = "plane" THEN {1, f.len} ELSE {1} :
    \A p \in Ps(o) : /\ Within(a * Val(f, o.pts[p]), o.v)
                     /\ LET g == Grad(f, o.pts[p]) IN \A k \in 1..Len(g) : Within(a * g[k], o.g[k])
SquareItv(o) == \A p \in Ps(o) : LET x == o.pts[p] s == Smooth(Origin(o, x)) g == SquareG(o, x) IN
    /\ Within(Val(o.f, x), o.v) /\ (o.point => o.v[2] - o.v[1] <= 2)
    /\ s => \A k \in 1..Len(x) : Within(g[k], o.g[k]) /\ (o.point => o.g[k][2] - o.g[k][1] <= 2)
\* an interval without extent gives the value up to rounding
PointItv(o) == o.point => o.v[2] - o.v[1] <= 2 /\ \A k \in 1..Len(o.g) : o.g[k][2] - o.g[k][1] <= 2
Close(a, v) == Mag(a - v) <= 3 + (Mag(v) \div 100000)
Full(o, x) == IF Len(x) = 3 THEN x ELSE Append(x, o.z)
Full3(m) == IF Len(m) = 3 THEN m ELSE Append(m, 1)
PeriodicOk(o) == \A p \in Ps(o) : LET x == Full(o, o.pts[p]) m == Full3(o.m) d == Len(o.pts[p]) IN
    /\ Close(o.vals[p], Milli(TVal(o.name, m, x)))
    /\ LET g == TGrad(o.name, m, x, d) IN Len(o.grads[p]) = d /\ \A k \in 1..d : Close(o.grads[p][k], Milli(g[k]))
    /\ LET h == THess(o.name, m, x, d) IN Len(o.hess[p]) = Len(h) /\ \A k \in 1..Len(h) : Close(o.hess[p][k], Milli(h[k]))
Roughly(v, e) == e[1] <= v + 3 /\ v - 3 <= e[2]
PeriodicItv(o) == \A p \in Ps(o) : LET x == Full(o, o.pts[p]) m == Full3(o.m) d == Len(o.pts[p]) IN
    /\ Roughly(Milli(TVal(o.name, m, x)), o.v)
    /\ LET g == TGrad(o.name, m, x, d) IN \A k \in 1..d : Roughly(Milli(g[k]), o.g[k])
PeriodicPoint(o) == o.point => o.v[2] - o.v[1] <= 2
\* affine maps, from how they were made
Rot2(t) == LET a == t.a IN [A |-> << <<a[1] * t.sc[1], -a[2] * t.sc[2]>>, <<a[2] * t.sc[1], a[1] * t.sc[2]>> >>, b |-> Scale(t.o, t.l), s |-> t.l]
Rot3(t) == LET z == Cross(t.a, t.b) y == Cross(z, t.a) IN
    [A |-> [k \in 1..3 |-> <<t.a[k] * t.sc[1] * t.n, y[k] * t.sc[2], z[k] * t.sc[3] * t.l>>], b |-> Scale(t.o, t.l * t.n), s |-> t.l * t.n]
Eye(d, s) == [k \in 1..d |-> Scale(Unit(d, k), s)]
RECURSIVE Map(_, _)
Map(t, d) ==
    CASE t.k = "id" -> [A |-> Eye(d, 1), b |-> Scale(Unit(d, 1), 0), s |-> 1]
      [] t.k \in {"shift", "scale"} -> [A |-> Eye(d, t.sc), b |-> t.o, s |-> 1]
      [] t.k = "rot" -> IF d = 2 THEN Rot2(t) ELSE Rot3(t)
      [] t.k = "coefs" -> [A |-> t.A, b |-> t.b0, s |-> t.s]
      [] t.k = "mul" -> Compose(Map(t.t, d), Map(t.u, d))
MapOk(o) == LET t == Map(o.t, o.d) IN t.s = o.S /\ \A p \in Ps(o) : o.vals[p] = Apply(t, o.pts[p])
BackOk(o) == \A k \in 1..4 : o.v[k] = o.pts
AtOk(o) == \A p \in Ps(o) : o.vals[p] = Val(o.f, o.pts[p])
\* reference systems: orthonormal, along the documented directions
Gram(n) == [a \in 1..n |-> [b \in 1..n |-> IF a = b THEN 1 ELSE 0]]
SysOk(o) == LET d == o.d IN
    /\ o.gram = Gram(d) /\ o.o = o.at
    /\ CASE o.sys = "cart" -> o.basis = Eye(d, o.S) /\ o.cart
         [] o.sys = "axis" /\ d = 2 -> o.basis = <<o.a, Turn(o.a)>> /\ o.cart = (o.a[1] > 0 /\ o.a[2] = 0)
         [] o.sys = "axis" /\ d = 3 -> /\ o.along = <<0, 0, o.S * o.S>>    \* the third axis lies along a
                                       /\ (o.cart => o.a[1] = 0 /\ o.a[2] = 0 /\ o.a[3] > 0)
         [] o.sys = "two" -> LET z == Cross(o.a, o.b) IN
                /\ o.basis = <<Scale(o.a, o.n), Cross(z, o.a), Scale(z, o.l)>>
                /\ o.cart = (o.basis = Eye(3, o.S))
AroundOk(o) == o.gram = Gram(2) /\ o.along = <<0, 0>>
GetOk(o) == LET f == o.f IN
    /\ f.k \in {"sphere", "cylinder"} => o.r = f.r * o.S
    /\ f.k = "annulus" => o.ri = f.ri * o.S /\ o.ro = f.ro * o.S
    /\ f.k = "torus" => o.R = f.R * o.S /\ o.r = f.r * o.S
    /\ f.k = "constant" => o.v = f.v
    /\ f.k # "constant" => o.c = Scale(f.c, o.S)
    /\ f.k \in {"cylinder", "torus"} => o.a = f.a                       \* unit axis, over its length S
    /\ f.k = "ellipsoid" => o.semi = Scale(f.semi, o.S) /\ (f.sys.k = "cart" => o.basis = Eye(Len(f.c), o.S))
    /\ f.k = "plane" => o.n = f.n \/ o.n = Scale(f.n, o.S)
Ok(o) ==
    CASE o.k = "exact" -> ExactOk(o)
      [] o.k = "square" -> SquareOk(o)
      [] o.k = "sqitv" -> SquareItv(o)
      [] o.k = "itv" -> ItvOk(o) /\ PointItv(o)
      [] o.k = "periodic" -> PeriodicOk(o)
      [] o.k = "pitv" -> PeriodicItv(o) /\ PeriodicPoint(o)
      [] o.k = "map" -> MapOk(o)
      [] o.k = "back" -> BackOk(o)
      [] o.k = "at" -> AtOk(o)
      [] o.k = "sys" -> SysOk(o)
      [] o.k = "around" -> AroundOk(o)
      [] o.k = "get" -> GetOk(o)
Init == i = 0
Next == /\ i < Len(Obs) /\ i' = i + 1
        /\ (Ok(Obs[i + 1]) \/ PrintT(<<"BAD", i + 1>>))
        /\ (i' < Len(Obs) \/ PrintT(<<"DONE", i'>>))
Spec == Init /\ [][Next]_i
=============================================================================
