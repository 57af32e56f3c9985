--------------------------- MODULE PyDomainJudge ---------------------------
\* Boxes, grids, quadratures, unfitted domains, meshes and reparameterizations through Python, judged by
\* UnfittedGeometry.tla, CartGrid.tla and EntityNumbering.tla.
EXTENDS UnfittedGeometryJudge
EN == INSTANCE EntityNumbering
CG == INSTANCE CartGrid
IsOf(name, d) == name \o (IF d = 1 THEN "1D" ELSE IF d = 2 THEN "2D" ELSE "3D")
\* ------------------------------------------------------------------ boxes, grids, rules
BoxRows(b) == [k \in DOMAIN b.lo |-> <<b.lo[k], b.hi[k]>>]
PyBox(o) == LET D == DOMAIN o.blo IN
    /\ o.class = IsOf("BoundBox_", Len(o.blo))
    /\ o.lo = o.blo /\ o.hi = o.bhi /\ o.array = BoxRows([lo |-> o.blo, hi |-> o.bhi])
    /\ o.mid = [k \in D |-> o.blo[k] + o.bhi[k]]
    /\ o.length = [k \in D |-> o.bhi[k] - o.blo[k]] /\ o.volume = Prod(o.length)
PyGrid(o) == LET b == o.b d == Len(b) IN
    /\ o.class = IsOf("CartGridTP_", d) /\ o.dim = d /\ o.n = CG!CellsDir(b) /\ o.breaks = b
    /\ o.domain = [k \in 1..d |-> <<b[k][1], b[k][Len(b[k])]>>]
    /\ o.cells = [c \in 1..Prod(o.n) |-> BoxRows(CG!CellBox(b, c - 1))]
    /\ o.bdry = [f \in 1..(2 * d) |-> Sorted(CG!BoundaryCells(b, f - 1))]
\* products of the rules of each direction, in thousandths
PyGauss(o) == LET n == o.ng d == Len(n) T == Prod(n) IN
    /\ \A k \in 1..d : Len(o.x1[k]) = n[k] /\ Len(o.w1[k]) = n[k]
    /\ Len(o.pts) = T /\ Len(o.w) = T
    /\ \A q \in 1..T : LET t == TensorOf(n, q - 1)
                           p(k) == FoldLeft(LAMBDA r, j : IF j > k THEN r ELSE (r * o.w1[j][t[j] + 1]) \div (IF j = 1 THEN 1 ELSE 1000), 1, [j \in 1..d |-> j]) IN
         /\ o.pts[q] = [k \in 1..d |-> o.x1[k][t[k] + 1]]
         /\ o.w[q] - p(d) \in (-4)..4
\* ------------------------------------------------------------------ domains
PyStatus(o) == LET w == World(o)
                   cell == TLCEval([c \in Cells(w) |-> CellStatus(w, c)])
                   st == TLCEval([x \in Cells(w) \X Facets(w) |-> FacetStatus(w, x[1], x[2])])
                   of(s) == {c \in Cells(w) : Known(w, c) /\ cell[c] = s}
                   pred(p, c, f) == Known(w, c) /\ PredOf(p, st[<<c, f>>])
                   with(p) == {x \in Cells(w) \X Facets(w) : pred(p, x[1], x[2])} IN
    /\ o.class = IsOf("UnfittedImplDomain_", Len(o.n)) /\ o.dim = Len(o.n) /\ o.grid = o.n /\ o.same
    /\ o.total = Prod(o.n) /\ o.any = (with("unf") # {})
    /\ \A s \in 1..3 : /\ o.allc[s] = Sorted(of(Kinds[s]))
                       /\ o.some[s] = Sorted(of(Kinds[s]) \cap SetOf(o.tc))
    \* in the order of the names in the driver: full, empty, cut, full_unf, unf
    /\ \A p \in 1..5 : /\ Lists(o.allf[p], with(Preds[p]))
                       /\ o.somef[p] = SelectSeq(o.tf, LAMBDA x : pred(Preds[p], x[1], x[2]))
PyDomain(o) == PyStatus(o) /\ QuadOk(o)
\* ------------------------------------------------------------------ unfitted meshes
\* facets are numbered as in DOLFINx
Lexical(o, F) == LET t == EN!FaceTable(Len(o.n)) IN [j \in DOMAIN F |-> <<F[j][1], t[F[j][2] + 1]>>]
Points(deg) == IF deg < 1 THEN 1 ELSE (deg + 2) \div 2
PyMesh(o) == LET w == World(o) d == Len(o.n)
                 cell == TLCEval([c \in Cells(w) |-> CellStatus(w, c)])
                 active == {c \in Cells(w) : ~o.exclude \/ cell[c] # "empty"}
                 next(c, f) == FlatOf(o.n, Across(TensorOf(o.n, c), f))
                 lone(c, f) == Exterior(w, c, f) \/ next(c, f) \notin active
                 st == TLCEval([x \in active \X Facets(w) |-> FacetStatus(w, x[1], x[2])])
                 q == [o EXCEPT !.f = Lexical(o, o.f)] @@ [npts |-> Points(o.qdeg), include |-> FALSE, exclude |-> FALSE] IN
    /\ Lists(o.active, active)
    /\ \A k \in 1..3 : Lists(CASE k = 1 -> o.full [] k = 2 -> o.empty [] k = 3 -> o.cut, {c \in active : cell[c] = Kinds[k]})
    /\ \A s \in DOMAIN o.sets : LET r == o.sets[s] IN
         SetOf(Lexical(o, r.f)) = {x \in active \X Facets(w) : Sel(r.ext, r.kind, lone(x[1], x[2]), st[x])}
    /\ o.c = o.active /\ o.uc = o.active /\ o.f2 = o.f
    /\ o.f = [j \in 1..(Len(o.active) * 2 * d) |-> <<o.active[((j - 1) \div (2 * d)) + 1], (j - 1) % (2 * d)>>]
    /\ VolumeOk(w, q) /\ BoundaryOk(w, [q EXCEPT !.exclude = FALSE]) /\ FacetsOk(w, q, o.ext, ExtPart) /\ FacetsOk(w, q, o.int, IntPart)
\* ------------------------------------------------------------------ reparameterizations of half-spaces
\* o.at: the plane lies between micro cells at - 1 and at; quarters of a cell's content
PyReparam(o) == LET d == Len(o.n) dim == IF o.levelset THEN d - 1 ELSE d
                    cells == 0..(Prod(o.n) - 1)
                    half(c) == o.at - (2 * TensorOf(o.n, c)[o.dirn + 1] + 1)     \* of the cell's two layers, how many are below
                    below(c) == IF half(c) < 0 THEN 0 ELSE IF half(c) > 2 THEN 2 ELSE half(c)
                    part(c) == IF o.levelset THEN (IF half(c) = 1 THEN 2 ELSE 0) ELSE IF o.sense = 1 THEN below(c) ELSE 2 - below(c)
                    content(c) == IF c \in SetOf(o.cells) THEN (part(c) * 4 ^ dim) \div 2 ELSE 0
                    p == o.npts - 1 IN
    /\ o.dim = dim /\ o.range = d /\ o.order = o.npts
    /\ Len(o.rows) = Prod(o.n) + 1 /\ o.rows[Prod(o.n) + 1] = <<0, 0>>
    /\ \A c \in cells : o.rows[c + 1][2] = content(c) /\ (o.rows[c + 1][1] = 0) = (content(c) = 0)
    /\ o.width = <<o.npts ^ dim, o.npts>> /\ o.used /\ (o.merge => o.apart)
    /\ \A s \in DOMAIN o.sent : o.sent[s]
    /\ o.interpok /\ o.interp = [c \in 1..o.ninterp |-> c - 1]
    \* every process keeps its cells; isoparametric elements
    /\ o.parts = <<[j \in DOMAIN o.conn |-> o.rank], [j \in DOMAIN o.wire |-> o.rank]>>
    /\ o.elements = [s \in 1..2 |-> <<IF s = 1 THEN dim ELSE 1, "Lagrange", p, <<d>>, FALSE, TRUE, "float64">>]
    /\ o.mconn = [j \in DOMAIN o.conn |-> LET t == EN!DOLFINxNodes(dim, p) IN [k \in DOMAIN t |-> o.conn[j][t[k] + 1]]]
    /\ o.mwire = [j \in DOMAIN o.wire |-> LET t == EN!DOLFINxNodes(1, p) IN [k \in DOMAIN t |-> o.wire[j][t[k] + 1]]]
PyOk(o) ==
    CASE o.k = "bbox" -> PyBox(o) [] o.k = "grid" -> PyGrid(o) [] o.k = "gauss" -> PyGauss(o)
      [] o.k = "domain" -> PyDomain(o) [] o.k = "mesh" -> PyMesh(o) [] o.k = "reparam" -> PyReparam(o)
PyNext == /\ i < Len(Obs) /\ i' = i + 1
          /\ (PyOk(Obs[i + 1]) \/ PrintT(<<"BAD", i + 1>>))
          /\ (i' < Len(Obs) \/ PrintT(<<"DONE", i'>>))
PySpec == Init /\ [][PyNext]_i
=============================================================================
