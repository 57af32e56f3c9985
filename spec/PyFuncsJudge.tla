--------------------------- MODULE PyFuncsJudge ---------------------------
\* Implicit functions created and queried through qugar.impl, judged by ImplFuncs.tla.
EXTENDS ImplFuncsJudge
Values(o) == LET f == o.f IN
    \E a \in IF f.k = "plane" THEN {1, f.len} ELSE {1} :
    \A p \in Ps(o) : o.vals[p] = a * Val(f, o.pts[p]) /\ o.grads[p] = Scale(Grad(f, o.pts[p]), a)
PySquare(o) == SquareOk(o)
PyPeriodic(o) == \A p \in Ps(o) : LET x == Full(o, o.pts[p]) m == Full3(o.m) g == TGrad(o.name, m, x, o.d) IN
    /\ Close(o.vals[p], Milli(TVal(o.name, m, x)))
    /\ Len(o.grads[p]) = o.d /\ \A k \in 1..o.d : Close(o.grads[p][k], Milli(g[k]))
PyAt(o) == LET t == Map(o.t, o.d) IN t.s = o.S /\ \A p \in Ps(o) : o.img[p] = Apply(t, o.pts[p]) /\ o.vals[p] = Val(o.f, o.pts[p])
Answers(o) == o.ok /\ o.dim = o.d /\ Len(o.vals) = Len(o.pts)
\* what is left out is as documented; o.bzr: asked for (or by default) in Bezier form
PyGet(o) == LET f == o.f IN
    /\ o.isbzr = o.bzr
    /\ f.k \in {"sphere", "cylinder"} => o.radius = f.r * o.S
    /\ f.k = "annulus" => o.inner_radius = f.ri * o.S /\ o.outer_radius = f.ro * o.S
    /\ f.k = "torus" => o.major_radius = f.R * o.S /\ o.minor_radius = f.r * o.S
    /\ f.k = "constant" => o.value = f.v
    /\ f.k \in {"sphere", "annulus", "torus"} => o.center = Scale(f.c, o.S)
    /\ f.k \in {"cylinder", "plane"} => o.origin = Scale(f.c, o.S)
    /\ f.k \in {"cylinder", "torus"} => o.axis = f.a
    /\ f.k = "ellipsoid" => o.semi_axes = Scale(f.semi, o.S) /\ o.ref = (IF Len(f.c) = 2 THEN "RefSystem_2D" ELSE "RefSystem_3D")
    /\ f.k = "plane" => o.normal = f.n \/ o.normal = Scale(f.n, o.S)
\* creators reject what they document as invalid, and nothing else
Fails(r) == CASE r[1] = "positive" -> r[2] <= 0
              [] r[1] = "size" -> \A k \in DOMAIN r[3] : r[2] # r[3][k]
              [] r[1] = "dim" -> r[2] \notin {2, 3}
PyErr(o) == o.raised = (IF \E k \in DOMAIN o.rules : Fails(o.rules[k]) THEN "AssertionError" ELSE "")
PyOk(o) ==
    CASE o.k = "exact" -> Answers(o) /\ Values(o)
      [] o.k = "square" -> Answers(o) /\ PySquare(o)
      [] o.k = "periodic" -> Answers(o) /\ PyPeriodic(o)
      [] o.k = "at" -> Answers(o) /\ PyAt(o)
      [] o.k = "get" -> PyGet(o)
      [] o.k = "err" -> PyErr(o)
PyNext == /\ i < Len(Obs) /\ i' = i + 1
          /\ (PyOk(Obs[i + 1]) \/ PrintT(<<"BAD", i + 1>>))
          /\ (i' < Len(Obs) \/ PrintT(<<"DONE", i'>>))
PySpec == Init /\ [][PyNext]_i
=============================================================================
