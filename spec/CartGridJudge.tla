--------------------------- MODULE CartGridJudge ---------------------------
EXTENDS CartGrid, BigIndex, TLC, Json, IOUtils
Obs == ndJsonDeserialize(IOEnv.OBS)
VARIABLE i
Facets(b) == 0..(2 * Len(b) - 1)
GridOk(b, r) == LET n == CellsDir(b) IN
    /\ r.breaks = b /\ r.n = n /\ r.count = Prod(n)
    /\ r.domain = RangeBox(b, [k \in DOMAIN b |-> 0], n)
    /\ r.cells = [c \in 1..Prod(n) |-> CellBox(b, c - 1)]
    /\ r.tens = [c \in 1..Prod(n) |-> TensorOf(n, c - 1)]
    /\ r.flat = [c \in 1..Prod(n) |-> c - 1]
    /\ r.on = [c \in 1..Prod(n) |-> [f \in 1..(2 * Len(b)) |-> OnBoundary(b, c - 1, f - 1)]]
    /\ r.bdry = [f \in 1..(2 * Len(b)) |-> Sorted(BoundaryCells(b, f - 1))]
Even(lo, hi, n) == [k \in DOMAIN n |-> [j \in 1..(n[k] + 1) |-> lo[k] + (j - 1) * ((hi[k] - lo[k]) \div n[k])]]
SubOk(b, lo, hi, s) ==
    /\ s.lo = lo /\ s.hi = hi /\ s.n = Extent(lo, hi) /\ s.count = Count(lo, hi)
    /\ s.full = (Extent(lo, hi) = CellsDir(b)) /\ s.unique = (Count(lo, hi) = 1)
    /\ s.domain = RangeBox(b, lo, hi) /\ s.cells = RangeCells(b, lo, hi)
    /\ s.single = (IF Count(lo, hi) = 1 THEN FlatOf(CellsDir(b), lo) ELSE -1)
BoxOk(o) == LET D == DOMAIN o.lo Len1(k) == o.hi[k] - o.lo[k] IN
    /\ o.box = [lo |-> o.lo, hi |-> o.hi] /\ o.rect = o.box /\ o.arr = o.box
    /\ o.set = [lo |-> o.lo2, hi |-> o.hi2]
    /\ o.ext = [lo |-> [k \in D |-> MinOf(o.lo[k], o.p[k])], hi |-> [k \in D |-> MaxOf(o.hi[k], o.p[k])]]
    /\ o.grown = [lo |-> [k \in D |-> o.lo[k] - o.delta], hi |-> [k \in D |-> o.hi[k] + o.delta]]
    /\ o.len = [k \in D |-> Len1(k)] /\ o.mid = [k \in D |-> o.lo[k] + o.hi[k]]
    /\ o.vol = Prod([k \in D |-> Len1(k) \div 128])
    \* lengths are powers of two, points multiples of 1/16
    /\ \A k \in D : LET w == Len1(k) \div 128 x == (o.p[k] - o.lo[k]) \div 128 IN
         /\ w * o.to01[k] = x * 2048 * 64
         /\ w * (o.tonew[k] - o.lo2[k] * 64) = x * (o.hi2[k] - o.lo2[k]) * 64
    /\ o.back = o.p
    /\ o.unit = [lo |-> [k \in D |-> 0], hi |-> [k \in D |-> 2048]]
TolOk(o) == LET t == o.t a == o.a b == o.b r == o.r m == MaxOf(AbsOf(a), AbsOf(b)) IN
    /\ o.zero = Eq(t, a, 0) /\ o.neg = Gt(t, 0, a) /\ o.pos = Gt(t, a, 0)
    /\ o.eq = Eq(t, a, b) /\ o.gt = Gt(t, a, b) /\ o.lt = Gt(t, b, a)
    /\ o.ge = (o.eq \/ o.gt) /\ o.le = (o.eq \/ o.lt)
    \* relative tolerances are fractions of 2048
    /\ o.eqr = (2048 * AbsOf(a - b) <= m * t) /\ o.gtr = (2048 * (a - b) > m * t) /\ o.ltr = (2048 * (b - a) > m * t)
    /\ o.eqm = (2048 * AbsOf(a - b) <= 2048 * t + m * r)
    /\ o.values = <<t, MaxOf(t, r), MaxOf(t, r), MaxOf(t, r), MaxOf(t, r)>>
UniqueOk(o) == LET S == {o.v[j] : j \in DOMAIN o.v} K == {o.kept[j] : j \in DOMAIN o.kept} IN
    /\ K \subseteq S
    /\ \A j \in DOMAIN o.kept : j + 1 \in DOMAIN o.kept => Gt(o.t, o.kept[j + 1], o.kept[j])
    /\ \A x \in S : \E y \in K : Eq(o.t, x, y)
SameOk(o) == LET P == o.pts D == DOMAIN P IN
    /\ Len(o.map) = Len(P) /\ Len(o.otn) = Len(P)
    /\ \A j \in D : o.map[j] + 1 \in D /\ Coincide(o.t, P[j], P[o.map[j] + 1])
    /\ \A j, l \in D : Coincide(o.t, P[j], P[l]) <=> o.map[j] = o.map[l]
    /\ \A j \in D : o.map[o.map[j] + 1] = o.map[j]
    \* the kept points are the chosen ones, in the order in which they were given
    /\ LET rep == Sorted({o.map[j] : j \in D}) IN
         /\ o.kept = [j \in DOMAIN rep |-> P[rep[j] + 1]]
         /\ \A j \in D : rep[o.otn[j] + 1] = o.map[j]
\* grids of unit cells with more cells than fit in 32 bits
WideOk(o) == LET n == o.n IN
    /\ n = o.nn /\ o.count = BigProd(n) /\ Len(o.cells) = Len(o.ts)
    /\ \A j \in DOMAIN o.cells : LET c == o.cells[j] t == o.ts[j] id == BigFlat(n, t) IN
         /\ c.t = t /\ c.back = t /\ c.id = id /\ c.at = id /\ c.single = id /\ c.first = id
         /\ c.left = BigProd([k \in DOMAIN n |-> n[k] - t[k]])
         /\ c.box = [lo |-> [k \in DOMAIN n |-> 64 * t[k]], hi |-> [k \in DOMAIN n |-> 64 * (t[k] + 1)]]
         /\ c.on = [f \in 1..(2 * Len(n)) |-> t[(f - 1) \div 2 + 1] = ((f - 1) % 2) * (n[(f - 1) \div 2 + 1] - 1)]
    /\ \A j \in DOMAIN o.bdry : LET b == o.bdry[j] fix == [k \in DOMAIN n |-> IF k = b.f \div 2 + 1 THEN (b.f % 2) * (n[k] - 1) ELSE -1] IN
         /\ b.len = SliceCount(n, fix)
         /\ \A k \in DOMAIN b.at : b.ids[k] = BigFlat(n, SliceElem(n, fix, b.at[k], 1))
Ok(o) == CASE o.k = "wide" -> WideOk(o)
           [] o.k = "grid" -> GridOk(o.b, o)
           [] o.k = "even" -> GridOk(Even(o.lo, o.hi, o.nn), o) /\ GridOk(Even([k \in DOMAIN o.nn |-> 0], [k \in DOMAIN o.nn |-> 2048], o.nn), o.unit)
           [] o.k = "points" ->
                /\ Len(o.id) = Len(o.pts) /\ Len(o.at) = Len(o.pts)
                /\ \A j \in DOMAIN o.pts :
                     /\ o.id[j] = CellAt(o.b, o.pts[j], o.t)
                     /\ LET D == DirsAt(o.b, o.pts[j], o.t) IN IF D = {} THEN o.at[j] = -1 ELSE o.at[j] \in D
           [] o.k = "sub" ->
                /\ o.same /\ SubOk(o.b, o.lo, o.hi, o.sub) /\ SubOk(o.b, [k \in DOMAIN o.b |-> 0], CellsDir(o.b), o.whole)
                /\ IF Count(o.lo, o.hi) > 1
                   THEN /\ Len(o.halves) = 2
                        /\ \A h \in 1..2 : SubOk(o.b, o.halves[h].lo, o.halves[h].hi, o.halves[h])
                        /\ IsSplit(o.lo, o.hi, o.halves[1].lo, o.halves[1].hi, o.halves[2].lo, o.halves[2].hi)
                   ELSE o.halves = <<>>
           [] o.k = "box" -> BoxOk(o)
           [] o.k = "tol" -> TolOk(o)
           [] o.k = "unique" -> UniqueOk(o)
           [] o.k = "same" -> SameOk(o)
Init == i = 0
Next == /\ i < Len(Obs) /\ i' = i + 1
        /\ (Ok(Obs[i + 1]) \/ PrintT(<<"BAD", i + 1>>))
        /\ (i' < Len(Obs) \/ PrintT(<<"DONE", i'>>))
Spec == Init /\ [][Next]_i
=============================================================================
