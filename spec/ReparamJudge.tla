--------------------------- MODULE ReparamJudge ---------------------------
\* Reparameterizations recorded from the C++ library, judged by ReparamMesh.tla and HalfSpace.tla
EXTENDS ReparamMesh, Json, IOUtils, TLC
H == INSTANCE HalfSpace
V == INSTANCE Oval
Obs == ndJsonDeserialize(IOEnv.OBS)
VARIABLE i
\* ----- containers
Resolve(points, ids) == [j \in DOMAIN ids |-> points[ids[j] + 1]]
SameCells(A, B) == Len(A) = Len(B) /\ \A c \in DOMAIN A : NearLine(A[c], B[c])
SameWires(A, B) == /\ Len(A) = Len(B)
                   /\ \A w \in Range(B) : Cardinality({j \in DOMAIN A : SameLine(A[j], w)}) = Cardinality({j \in DOMAIN B : SameLine(B[j], w)})
FileOk(f, o, ids, d) ==
    LET v == VtkNodes(o.n, d) IN
    /\ Len(f.points) = Len(o.points) /\ \A p \in DOMAIN f.points : Near(f.points[p], o.points[p])
    /\ f.types = [c \in DOMAIN ids |-> VtkType(o.n, d)]
    /\ f.offsets = [c \in DOMAIN ids |-> c * Len(v)]
    /\ f.conn = FoldLeft(LAMBDA r, c : r \o [j \in 1..Len(v) |-> c[v[j] + 1]], <<>>, ids)
MeshOk(o) ==
    LET m == Result(o.ops, o.d, o.n)
        cells == [c \in DOMAIN o.cells |-> Resolve(o.points, o.cells[c])]
        wires == [w \in DOMAIN o.wires |-> Resolve(o.points, o.wires[w])]
    IN /\ o.counts = <<Len(m.cells), m.count, P(o.n, o.d), o.n>> /\ Len(o.points) = m.count
       /\ SameCells(cells, m.cells) /\ SameWires(wires, m.wires)
       /\ \A f \in Range(o.files) : FileOk(f, o, IF f.dim = 1 THEN o.wires ELSE o.cells, f.dim)
\* ----- reparameterizations of half-spaces; lengths in eighths
Zero(v) == \A k \in DOMAIN v : v[k] = 0
Nothing(r) == r.n = 0 /\ r.vol = 0 /\ Zero(r.mom) /\ Zero(r.len)
Side(o, id) == LET lo == GridLow(o.breaks, id) hi == GridHigh(o.breaks, id) IN [k \in DOMAIN lo |-> hi[k] - lo[k]]
Level(o, id) == LET lo == GridLow(o.breaks, id) IN o.c - FoldLeft(LAMBDA r, k : r + o.a[k] * lo[k], 0, [k \in DOMAIN lo |-> k])
\* extents of wires: edges of the box in the domain, and the boundary in its faces
Extents(len, a, c, q) == [k \in DOMAIN len |-> H!EdgeExtent(len, a, c, k, q) + H!BoundaryExtent(len, a, c, k, q)]
\* the domain as a signed sum of half-spaces: a.x < c; c < a.x < c2; or what is outside of that
Terms(o, id) ==
    LET lo == GridLow(o.breaks, id) at == FoldLeft(LAMBDA r, k : r + o.a[k] * lo[k], 0, [k \in DOMAIN lo |-> k])
        m == [k \in DOMAIN o.a |-> -o.a[k]]
    IN IF o.s = 0 THEN {<<1, o.a, o.c - at>>}
       ELSE IF o.s = 1 THEN {<<1, o.a, o.c2 - at>>, <<-1, o.a, o.c - at>>}
       ELSE {<<1, o.a, o.c - at>>, <<1, m, at - o.c2>>}
Total(T, F(_, _)) == MapThenSumSet(LAMBDA t : t[1] * F(t[2], t[3]), T)
VolumeRow(o, r, id, wires) ==
    LET len == Side(o, id) T == Terms(o, id) D == DOMAIN len c == Level(o, id)
        volume == Total(T, LAMBDA a, x : H!Volume(len, a, x))
    IN
    /\ r.neg = 0 /\ r.vol = volume
    /\ r.mom = [k \in D |-> Total(T, LAMBDA a, x : H!Moment(len, a, x, k))]
    /\ (o.s = 0 /\ H!Full(len, o.a, c) => r.n = 1)
    /\ (o.s = 0 /\ wires /\ H!Generic(len, o.a, c) => r.len = Extents(len, o.a, c, o.qv \div 8))
LevelRow(o, r, id, wires) ==
    LET len == Side(o, id) T == Terms(o, id) c == Level(o, id) D == DOMAIN len cut == \E t \in T : H!Cut(len, t[2], t[3]) IN
    /\ r.neg = 0 /\ (~cut => r.n = 0)
    /\ (cut => r.mom = [k \in D |-> Total(T, LAMBDA a, x : H!Flux(len, a, x, D, k))])
    /\ (o.s = 0 /\ wires /\ H!Generic(len, o.a, c) => r.len = (IF Len(len) = 2 THEN <<0, 0>> ELSE [k \in D |-> H!BoundaryExtent(len, o.a, c, k, o.qv \div 8)]))
Covered(o, m) ==
    LET cells == 0..(Len(m.rows) - 2) wanted == Range(o.cells) IN
    /\ m.on /\ Nothing(m.rows[Len(m.rows)])
    /\ \A id \in cells : LET r == m.rows[id + 1] single == o.merge /\ o.cells = <<id>> IN
         IF id \notin wanted THEN r.n = 0 ELSE IF o.levelset THEN LevelRow(o, r, id, single) ELSE VolumeRow(o, r, id, single)
CutOk(o) ==
    LET d == Len(o.a) S == H!Scale(o.a, 1..d) IN
    /\ o.qv = S * P(8, IF o.levelset THEN d - 1 ELSE d) /\ (~o.levelset => o.qm = H!MomentScale(o.a, 1..d) * P(8, d + 1))
    \* and once more after its cells were turned, oriented and given wires
    /\ Covered(o, o.m) /\ (o.bez > 2 => Covered(o, o.again))
\* ----- facets
FacetOk(o) ==
    LET d == Len(o.a) k == (o.facet \div 2) + 1 E == (1..d) \ {k}
        len == [j \in E |-> o.hi[j] - o.lo[j]]
        c == o.c - o.a[k] * (IF o.facet % 2 = 0 THEN o.lo[k] ELSE o.hi[k]) - FoldLeft(LAMBDA r, j : r + o.a[j] * o.lo[j], 0, SetToSeq(E))
        area == H!Content(len, o.a, H!Turned(len, o.a, c), E)
    IN /\ o.qv = H!Scale(o.a, E) * P(8, d - 1)
       /\ o.inside
       /\ \A m \in {o.m, o.again} : LET r == m.rows[1] IN
            /\ m.on /\ Nothing(m.rows[2]) /\ r.neg = 0
            /\ r.mom = [j \in 1..d |-> IF j # k THEN 0 ELSE IF o.facet % 2 = 0 THEN -area ELSE area]
       /\ LET r == o.m.rows[1] IN (d = 3 /\ o.unique /\ H!Generic(len, o.a, c) =>
              \A j \in E : r.len[j] = H!EdgeExtent(len, o.a, c, j, o.qv \div 8) + H!BoundaryExtent(len, o.a, c, j, o.qv \div 8))
\* ----- Lagrange polynomials reproduce monomials and their derivatives (p in quarters)
Monomial(p, m) == FoldLeft(LAMBDA r, k : r * P(p[k], m[k]), 1, [k \in DOMAIN p |-> k])
Derivative(p, m, k) == IF m[k] = 0 THEN 0 ELSE 4 * m[k] * Monomial(p, [m EXCEPT ![k] = @ - 1])
LagrangeOk(o) == /\ o.count = FoldLeft(LAMBDA r, x : r * x, 1, o.n)
                 /\ o.values = <<Monomial(o.p, o.m)>> \o [k \in DOMAIN o.p |-> Derivative(o.p, o.m, k)]
\* ----- ellipsoids
Sum(rows, f(_)) == FoldLeft(LAMBDA r, x : r + f(x), 0, rows)
OvalOk(o) ==
    LET d == Len(o.a) rows == o.m.rows cells == 0..(Len(rows) - 2)
        lo(id) == GridLow(o.breaks, id)  hi(id) == GridHigh(o.breaks, id)
        in(id) == V!Inside(o.a, o.c, o.r, lo(id), hi(id))  out(id) == V!Outside(o.a, o.c, o.r, lo(id), hi(id))
        total == Sum(rows, LAMBDA x : x.vol)  content == V!Content(o.a, o.r)
    IN /\ rows[Len(rows)].n = 0
       /\ \A id \in cells : LET r == rows[id + 1] IN
            IF o.levelset THEN (in(id) \/ out(id)) => r.n = 0
            ELSE /\ (IF o.s = 1 THEN out(id) ELSE in(id)) => r.n = 0
                 /\ (IF o.s = 1 THEN in(id) ELSE out(id)) => r.n = 1 /\ r.neg = 0 /\ V!Box(r.vol, lo(id), hi(id))
       /\ IF o.levelset THEN /\ o.m.on /\ V!Close(d, o.n, o.s * total, content)
                             \* curves close up, but for tips of corners
                             /\ d = 2 => \A j \in 1..2 : Sum(rows, LAMBDA x : x.mom[j]) \in -300..300
          ELSE IF o.s = 1 THEN o.m.on /\ (d = 2 => Sum(rows, LAMBDA x : x.neg) = 0) /\ V!Close(d, o.n, total, content)
          \* cells of what is left may reach over narrow gaps
          ELSE d = 2 /\ ~o.bez => V!Close(d, o.n, 10000 - total, content)
Ok(o) == CASE o.k = "oval" -> OvalOk(o) [] o.k = "mesh" -> MeshOk(o) [] o.k = "cut" -> CutOk(o) [] o.k = "facet" -> FacetOk(o) [] o.k = "lagrange" -> LagrangeOk(o)
Init == i = 0
Next == /\ i < Len(Obs) /\ i' = i + 1
        /\ (Ok(Obs[i + 1]) \/ PrintT(<<"BAD", i + 1>>))
        /\ (i' < Len(Obs) \/ PrintT(<<"DONE", i'>>))
Spec == Init /\ [][Next]_i
=============================================================================
