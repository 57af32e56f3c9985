---------------------------- MODULE MeasureJudge ----------------------------
\* "script": o.m, o.ops; o.first/o.last integrals of the integrand times the measure before and after the operations;
\*   o.geo[d] = [F, N, t, g]; every integral has its fields, o.points, ... and fac2 = factor^2 * Den^2 (rounded), up = factor > 0
\* "normal": o.F, o.N; o.plain, o.unit normals times Den, the second also times the length of the first one
\* "pair": o.a, o.b states of two measures; o.eq, o.hash
EXTENDS Measures, TLC, Json, IOUtils
Obs == ndJsonDeserialize(IOEnv.OBS)
VARIABLE i
Rng(s) == {s[k] : k \in DOMAIN s}
Fields(x) == [dom |-> x.dom, id |-> x.id, deg |-> x.deg, other |-> x.other, data |-> x.data]
\* metadata by which the code generator knows these integrals
Known(x, g) == /\ x.t = "cell" /\ x.rule = "custom" /\ x.flag
               /\ Len(x.points) = 2 /\ (\A k \in 1 .. 2 : x.points[k] = g.tdim) /\ x.weights = 2
Factor(x, g) == x.up /\ x.fac2 = Dot(Num(g.F, g.N), Num(g.F, g.N))
All(o, m, xs) == LET w == Integrals(m) IN
    /\ Len(xs) = Len(w) /\ {Fields(x) : x \in Rng(xs)} = {w[k] : k \in DOMAIN w}
    /\ \A x \in Rng(xs) : Known(x, o.geo[x.dom]) /\ Factor(x, o.geo[x.dom])
Script(o) == All(o, o.m, o.first) /\ All(o, Run(o.m, o.ops), o.last) /\ o.untouched
Normal(o) == LET n == Num(o.F, o.N) IN o.plain = n /\ o.unit = n /\ o.len = Len(o.F)
Pair(o) == (o.eq => o.a = o.b /\ o.hash) /\ o.self
OK(o) == CASE o.op = "script" -> Script(o) [] o.op = "normal" -> Normal(o) [] o.op = "pair" -> Pair(o)
Init == i = 0
Next == /\ i < Len(Obs) /\ i' = i + 1
        /\ ~OK(Obs[i + 1]) => PrintT(<<"BAD", i + 1>>)
        /\ i' = Len(Obs) => PrintT(<<"DONE", i'>>)
Spec == Init /\ [][Next]_i
=============================================================================
