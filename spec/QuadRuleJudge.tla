--------------------------- MODULE QuadRuleJudge ---------------------------
EXTENDS QuadRule, Json, IOUtils
Obs == ndJsonDeserialize(IOEnv.OBS)
VARIABLE i
RuleOk(o) == IF o.rule = "gauss" THEN IsGauss(o.x, o.w, o.n) ELSE IsTanhSinh(o.x, o.w, o.n)
\* o.X, o.W: the rules by direction; o.scale: the weights were scaled by o.scale quarters afterwards
BoxOk(o) == LET N == Prod(o.n) IN
    /\ o.count = N /\ Len(o.points) = N /\ Len(o.weights) = N
    /\ \A p \in 1..N : LET t == TensorOf(o.n, p - 1) x == BoxPoint(o.X, o.lo, o.len, t) IN
         /\ \A k \in DOMAIN t : Close(o.points[p][k], x[k], 20)
         /\ Close(o.weights[p], Over(Times(o.scale, BoxWeight(o.W, o.len, t)), 4), 1000)
Ok(o) == IF o.k = "rule" THEN RuleOk(o) ELSE BoxOk(o)
Init == i = 0
Next == /\ i < Len(Obs) /\ i' = i + 1
        /\ (Ok(Obs[i + 1]) \/ PrintT(<<"BAD", i + 1>>))
        /\ (i' < Len(Obs) \/ PrintT(<<"DONE", i'>>))
Spec == Init /\ [][Next]_i
=============================================================================
