-------------------------- MODULE TensorRangeJudge --------------------------
EXTENDS TensorRange, BigIndex, TLC, Json, IOUtils
Obs == ndJsonDeserialize(IOEnv.OBS)
VARIABLE i
RangeOk(r) ==
    /\ \A k \in DOMAIN r.lo : r.lo[k] <= r.hi[k]
    /\ r.size = Count(r.lo, r.hi) /\ r.sizes = Extent(r.lo, r.hi)
    /\ r.elems = Visit(r.lo, r.hi) /\ r.posts = r.elems
    /\ r.flats = [p \in DOMAIN r.elems |-> FlatOf(r.hi, r.elems[p])]
BigOk(o) == LET flat == BigFlat(o.n, o.t) IN
    /\ o.size = BigProd(o.n) /\ o.rsize = o.size
    /\ o.flat = flat /\ o.flat2 = flat /\ o.it = flat /\ o.back = o.t
    /\ o.only /\ o.in /\ ~o.past
Ok(o) == CASE o.k = "big" -> BigOk(o)
           [] o.k = "size" ->
                /\ o.size = Prod(o.n)
                /\ o.tens = [p \in 1..Prod(o.n) |-> TensorOf(o.n, p - 1)]
                /\ o.flats = [p \in 1..Prod(o.n) |-> p - 1] /\ o.flats2 = o.flats
           [] o.k = "pair" ->
                /\ o.lt = Less(o.a, o.b) /\ o.gt = Less(o.b, o.a)
                /\ o.eq = (o.a = o.b) /\ o.ne = (o.a # o.b) /\ o.sizeq = (o.a = o.b)
                /\ (o.a = o.b => o.hash)
                /\ o.sum = [k \in DOMAIN o.a |-> o.a[k] + o.b[k]]
           [] OTHER ->
                LET r == o.range IN
                /\ r.lo = o.lo /\ r.hi = o.hi /\ RangeOk(r)
                /\ o.inflat = Sorted({f \in All(o.n) : Inside(r.lo, r.hi, TensorOf(o.n, f))}) /\ o.intens = o.inflat
                /\ \A h \in DOMAIN o.halves : RangeOk(o.halves[h])
                /\ IF r.size > 1 THEN /\ Len(o.halves) = 2
                                      /\ IsSplit(r.lo, r.hi, o.halves[1].lo, o.halves[1].hi, o.halves[2].lo, o.halves[2].hi)
                   ELSE o.halves = <<>>
                /\ \A s \in DOMAIN o.same : o.same[s] = r
Init == i = 0
Next == /\ i < Len(Obs) /\ i' = i + 1
        /\ (Ok(Obs[i + 1]) \/ PrintT(<<"BAD", i + 1>>))
        /\ (i' < Len(Obs) \/ PrintT(<<"DONE", i'>>))
Spec == Init /\ [][Next]_i
=============================================================================
