--------------------------- MODULE UnfittedJudge ---------------------------
\* Judges cells, facets, tags and quadratures an unfitted domain answers.
\*  o.view process's mesh; o.cells[id+1] status of every cell of the grid;
\*  o.recs[id+1] its facets' statuses in lexicographical order, or <<>>.
EXTENDS MeshView, UnfittedStatus, TLC, Json, IOUtils
Obs == ndJsonDeserialize(IOEnv.OBS)
VARIABLE i
NoDup(s) == Cardinality(RangeOf(s)) = Len(s)
Sorted(s) == \A k \in 1..(Len(s) - 1) : s[k] < s[k + 1]
CellsOf(o, st) == {k - 1 : k \in {j \in 1..o.view.nown : o.cells[o.view.orig[j] + 1] = st}}
StatusOf(o, p, ft) == LET c == o.view.orig[p[1] + 1] IN StatusIn(o.cells[c + 1], o.recs[c + 1], ft[p[2] + 1] + 1)
SidesOf(v) == {<<c, j>> \in (0..(Len(v.c2f) - 1)) \X (0..(2 * v.dim - 1)) : v.c2f[c + 1][j + 1] < v.nfacets}
FacetOf0(v, p) == v.c2f[p[1] + 1][p[2] + 1]
Facets(o, T(_, _)) == LET ft == EN!FaceTable(o.view.dim)  E == Ext(o.view) IN
    {p \in SidesOf(o.view) : T(FacetOf0(o.view, p) \in E, StatusOf(o, p, ft))}
Chosen(o, ext, kind) == Facets(o, LAMBDA b, s : Sel(ext, kind, b, s))
Pairs(flat) == [k \in 1..(Len(flat) \div 2) |-> <<flat[2 * k - 1], flat[2 * k]>>]
\* tags: expected kinds per tag
KindsOf(o, t) == {k \in {"cut", "full", "empty"} : k \in DOMAIN o.tags /\ o.tags[k] = t}
GaussEnough(n, degree) == n >= 1 /\ 2 * n - 1 >= degree
OrigCells(o) == [k \in DOMAIN o.ask |-> o.view.orig[o.ask[k] + 1]]
OrigFacets(o) == LET ft == EN!FaceTable(o.view.dim) IN
    [k \in DOMAIN o.ask |-> <<o.view.orig[o.ask[k][1] + 1], ft[o.ask[k][2] + 1]>>]
Conforms(o) ==
    CASE o.op = "cells" -> Sorted(o.res) /\ RangeOf(o.res) = CellsOf(o, o.kind)
      [] o.op = "facets" -> NoDup(o.res) /\ RangeOf(o.res) = Chosen(o, o.ext, o.kind)
      [] o.op = "all" -> NoDup(o.res) /\ RangeOf(o.res) = Facets(o, LAMBDA b, s : InAll(o.ext, b, s))
      [] o.op = "celltags" -> /\ Len(o.res) = Len(o.values) /\ Sorted(o.res) /\ o.dim = o.view.dim
                              /\ {<<o.res[k], o.values[k]>> : k \in DOMAIN o.res} =
                                 UNION {{<<c, o.tags[k]>> : c \in CellsOf(o, k)} : k \in DOMAIN o.tags}
      [] o.op = "facettags" -> /\ NoDup(o.res) /\ RangeOf(o.res) = {o.tags[k] : k \in DOMAIN o.tags}
                               /\ \A k \in DOMAIN o.res : LET p == Pairs(o.values[k]) IN
                                    /\ NoDup(p) /\ Len(o.values[k]) % 2 = 0
                                    /\ RangeOf(p) = UNION {Chosen(o, o.ext, q) : q \in KindsOf(o, o.res[k])}
      [] o.op = "active" -> o.res = (IF o.exclude THEN SelectSeq([k \in 1..Len(o.cells) |-> k - 1], LAMBDA c : o.cells[c + 1] # "empty")
                                     ELSE [k \in 1..Len(o.cells) |-> k - 1])
      [] o.op = "quadcells" -> o.res = OrigCells(o) /\ o.owners = o.ask /\ GaussEnough(o.n, o.degree)
      [] o.op = "quadfacets" -> o.res = OrigFacets(o) /\ o.owners = o.ask /\ GaussEnough(o.n, o.degree)
Init == i = 0
Next == /\ i < Len(Obs) /\ i' = i + 1
        /\ ~Conforms(Obs[i + 1]) => PrintT(<<"BAD", i + 1>>)
        /\ i' = Len(Obs) => PrintT(<<"DONE", i'>>)
Spec == Init /\ [][Next]_i
=============================================================================
