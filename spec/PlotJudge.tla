----------------------------- MODULE PlotJudge -----------------------------
\* What qugar.plot shows of grids, domains, quadratures and reparameterizations, judged by UnfittedGeometry.tla,
\* CartGrid.tla and EntityNumbering.tla. o.ids: the cell behind each cell of the DOLFINx mesh; o.b in the driver's unit.
EXTENDS PyDomainJudge
Code(s) == CASE s = "full" -> 0 [] s = "cut" -> 1 [] s = "empty" -> 2
Asked(o, s) == o.flags[s]
Status(w, c) == IF Known(w, c) THEN CellStatus(w, c) ELSE "empty"
Present(o, w) == {c \in Cells(w) : ~o.exclude \/ CellStatus(w, c) # "empty"}
\* boxes have three directions, the third one may be flat
Three(p) == [k \in 1..3 |-> IF k <= Len(p) THEN p[k] ELSE 0]
Low(o, c) == CG!CellBox(o.b, c).lo
High(o, c) == CG!CellBox(o.b, c).hi
IsBox(o, r, c) == r.lo = Three(Low(o, c)) /\ r.hi = Three(High(o, c))
IsFace(o, r, c, f) == LET x == IF SideOf(f) = 0 THEN Low(o, c) ELSE High(o, c) d == DirOf(f) IN
    /\ r.lo = Three([Low(o, c) EXCEPT ![d] = x[d]]) /\ r.hi = Three([High(o, c) EXCEPT ![d] = x[d]])
\* DOLFINx's numbers of cell c (one process: local and global are the same) from position k on
Numbered(o, v, k, c) == o.mesh => /\ v[k] \in 0..(Len(o.ids) - 1) /\ o.ids[v[k] + 1] = c /\ v[k + 1] = v[k]
Numbering(o, w) == o.mesh => Lists(o.ids, Present(o, w))
Width(o, n) == IF o.mesh THEN n + 2 ELSE n
\* rows show the members of S, each once
Exactly(rows, S, Key(_)) == /\ Len(rows) = Cardinality(S) /\ {Key(rows[j]) : j \in DOMAIN rows} = S
FirstOf(r) == r.v[1]
PlotGrid(o) == LET w == World(o) IN
    /\ Exactly(o.rows, Present(o, w), FirstOf)
    /\ \A j \in DOMAIN o.rows : LET r == o.rows[j] IN Len(r.v) = Width(o, 1) /\ IsBox(o, r, r.v[1]) /\ Numbered(o, r.v, 2, r.v[1])
PlotCells(o) == LET w == World(o) IN
    /\ Exactly(o.rows, {c \in Present(o, w) : Asked(o, Status(w, c))}, FirstOf)
    /\ \A j \in DOMAIN o.rows : LET r == o.rows[j] c == r.v[1] IN
         /\ Len(r.v) = Width(o, 2) /\ IsBox(o, r, c) /\ r.v[2] = Code(Status(w, c)) /\ Numbered(o, r.v, 3, c)
PlotFacets(o) == LET w == World(o) active == Present(o, w)
                     next(c, f) == FlatOf(o.n, Across(TensorOf(o.n, c), f))
                     lone(c, f) == Exterior(w, c, f) \/ next(c, f) \notin active
                     st == TLCEval([x \in active \X Facets(w) |-> FacetStatus(w, x[1], x[2])])
                     is(kind, x) == IF o.mesh THEN Sel(TRUE, kind, lone(x[1], x[2]), st[x]) ELSE Known(w, x[1]) /\ PredOf(kind, st[x])
                     key(r) == <<r.v[1], r.v[3]>> IN
    /\ Exactly(o.rows, {x \in active \X Facets(w) : \E s \in {"full", "cut", "empty"} : Asked(o, s) /\ is(s, x)}, key)
    /\ \A j \in DOMAIN o.rows : LET r == o.rows[j] c == r.v[1] f == r.v[3] IN
         /\ Len(r.v) = IF o.mesh THEN 7 ELSE 4
         /\ IsFace(o, r, c, f) /\ r.v[2] = Code(Status(w, c)) /\ Numbered(o, r.v, 5, c)
         /\ \E s \in {"full", "cut", "empty"} : Asked(o, s) /\ is(s, <<c, f>>) /\ r.v[4] = Code(s)
         /\ o.mesh => EN!FaceTable(Len(o.n))[r.v[7] + 1] = f
\* ------------------------------------------------------------------ quadratures
Times(k, m) == [j \in DOMAIN m |-> k * m[j]]
PlotQuad(o) == LET w == World(o) d == Len(o.n)
                   cut == {c \in Cells(w) : Known(w, c) /\ CellStatus(w, c) = "cut"}
                   st == TLCEval([x \in Cells(w) \X Facets(w) |-> FacetStatus(w, x[1], x[2])])
                   bdry(c) == {x \in Dirs(w) \X {-1, 1} \X (0..2) : BoundaryPart(w, c, x[1], x[2], x[3], TRUE, TRUE) # {}}
                   \* facets that are cut, and those with boundary of the domain; both parts show those that are both
                   part(p, c, f) == IF Known(w, c) /\ PredOf(p, st[<<c, f>>]) THEN 1 ELSE 0
                   times(c, f) == part("cut", c, f) + part("unf", c, f)
                   facets == {x \in Cells(w) \X Facets(w) : times(x[1], x[2]) > 0 /\ ExtPart(w, x[1], x[2]) # {}}
                   at == IF o.mesh THEN 4 ELSE 2
                   key(r) == <<r.v[1], r.v[at]>> IN
    /\ o.names = <<"Cut cells quadrature", "Unfitted boundary quadrature", "Cut/unfitted facets quadrature">>
    /\ o.vol_ok /\ o.unf_ok /\ o.fac_ok
    /\ Exactly(o.vol, {c \in cut : CellPart(w, c) # {}}, FirstOf)
    /\ \A j \in DOMAIN o.vol : LET r == o.vol[j] IN r.ok /\ r.m = Moments(Axes(w), CellPart(w, r.v[1])) /\ Numbered(o, r.v, 2, r.v[1])
    /\ Exactly(o.unf, {c \in cut : bdry(c) # {}}, FirstOf)
    /\ \A j \in DOMAIN o.unf : LET u == o.unf[j] c == u.v[1] IN
         /\ u.ok /\ Numbered(o, u.v, 2, c)
         /\ {<<u.pieces[p].d + 1, u.pieces[p].s, u.pieces[p].at>> : p \in DOMAIN u.pieces} = bdry(c)
         /\ \A p \in DOMAIN u.pieces : LET k == u.pieces[p].d + 1 IN
              u.pieces[p].m = Moments(Free(w, k), BoundaryPart(w, c, k, u.pieces[p].s, u.pieces[p].at, TRUE, TRUE))
    /\ Exactly(o.fac, facets, key)
    /\ \A j \in DOMAIN o.fac : LET r == o.fac[j] c == r.v[1] f == r.v[at] IN
         /\ r.ok /\ r.m = Times(times(c, f), Moments(Free(w, DirOf(f)), ExtPart(w, c, f)))
         /\ Numbered(o, r.v, 2, c) /\ (o.mesh => EN!FaceTable(d)[r.v[5] + 1] = f)
\* ------------------------------------------------------------------ reparameterizations
Permuted(conn, t) == [j \in DOMAIN conn |-> [k \in DOMAIN t |-> conn[j][t[k] + 1]]]
VTKType(dim, p) == IF p = 1 THEN <<3, 9, 12>>[dim] ELSE <<68, 70, 72>>[dim]
Types(conn, t) == IF conn = <<>> THEN <<>> ELSE <<t>>
Shown(o) == LET p == o.npts - 1 IN
    /\ o.names = <<"reparam", "wirebasket">> /\ o.dnames = o.names
    /\ o.dim = Len(o.n) - (IF o.levelset THEN 1 ELSE 0)
    /\ o.cells = Permuted(o.conn, EN!VTKNodes(o.dim, p)) /\ o.wires = Permuted(o.wire, EN!VTKNodes(1, p))
    /\ o.cells_pts /\ o.wires_pts
    /\ o.cells_type = Types(o.conn, VTKType(o.dim, p)) /\ o.wires_type = Types(o.wire, VTKType(1, p))
    \* DOLFINx's own plotting gets the meshes of the cells and of the wires
    /\ o.dcells = Permuted(o.conn, EN!DOLFINxNodes(o.dim, p)) /\ o.dwires = Permuted(o.wire, EN!DOLFINxNodes(1, p))
PlotOk(o) == IF o.k = "shown" THEN Shown(o)
             ELSE LET w == World(o) IN
                  /\ Numbering(o, w)
                  /\ CASE o.what = "grid" -> o.more = <<>> /\ PlotGrid(o) [] o.what = "cells" -> o.more = <<>> /\ PlotCells(o)
                       [] o.what = "facets" -> o.more = <<>> /\ PlotFacets(o) [] o.what = "quad" -> PlotQuad(o)
PlotNext == /\ i < Len(Obs) /\ i' = i + 1
            /\ (PlotOk(Obs[i + 1]) \/ PrintT(<<"BAD", i + 1>>))
            /\ (i' < Len(Obs) \/ PrintT(<<"DONE", i'>>))
PlotSpec == Init /\ [][PlotNext]_i
=============================================================================
