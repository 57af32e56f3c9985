------------------------ MODULE UnfittedGeometryJudge ------------------------
EXTENDS UnfittedGeometry, TLC, Json, IOUtils
Obs == ndJsonDeserialize(IOEnv.OBS)
VARIABLE i
SetOf(s) == {s[j] : j \in DOMAIN s}
World(o) == [n |-> o.n, bits |-> o.bits, known |-> IF o.all THEN 0..(Prod(o.n) - 1) ELSE SetOf(o.given)]
Kinds == <<"full", "empty", "cut">>
Preds == <<"full", "empty", "cut", "full_unf", "unf">>
\* a list that enumerates a set
Lists(s, S) == SetOf(s) = S /\ Len(s) = Cardinality(S)
NonDecreasing(s) == \A j \in DOMAIN s : j + 1 \in DOMAIN s => s[j] <= s[j + 1]
StatusOk(o) == LET w == World(o) F == 2 * Len(w.n)
                   cell == TLCEval([c \in Cells(w) |-> CellStatus(w, c)])
                   st == TLCEval([x \in Cells(w) \X Facets(w) |-> FacetStatus(w, x[1], x[2])])
                   is(c, s) == Known(w, c) /\ cell[c] = s
                   fullunf(c) == is(c, "full") /\ \E f \in Facets(w) : st[<<c, f>>] # "full"
                   ofStatus(s) == {c \in Cells(w) : is(c, s)}
                   pred(p, c, f) == Known(w, c) /\ PredOf(p, st[<<c, f>>])
                   with(p) == {x \in Cells(w) \X Facets(w) : pred(p, x[1], x[2])} IN
    /\ o.cells = [c \in 1..Cardinality(Cells(w)) |-> LET full == fullunf(c - 1) cut == is(c - 1, "cut") IN
         <<is(c - 1, "full"), is(c - 1, "empty"), cut, full, full \/ cut>>]
    /\ o.facets = [x \in 1..(Cardinality(Cells(w)) * F) |-> LET c == (x - 1) \div F f == (x - 1) % F IN
         [p \in 1..5 |-> pred(Preds[p], c, f)] \o <<pred("ext", c, f), Exterior(w, c, f)>>]
    /\ o.counts = [s \in 1..3 |-> Cardinality(ofStatus(Kinds[s]))] \o <<Prod(w.n)>>
    /\ o.any = (with("unf") # {})
    /\ \A s \in 1..3 :
         /\ o.allc[s] = Sorted(ofStatus(Kinds[s]))
         /\ o.some[s] = Sorted(ofStatus(Kinds[s]) \cap SetOf(o.tc))
    /\ \A p \in 1..5 :
         /\ Lists(o.allf[p], with(Preds[p]))
         /\ o.somef[p] = SelectSeq(o.tf, LAMBDA x : pred(Preds[p], x[1], x[2]))
    \* the leaves of the partition: disjoint, of the cells of their status
    /\ \A s \in 1..4 :
         /\ o.nleaves[s] = Len(o.leaves[s])
         /\ Lists(FlattenSeq(o.leaves[s]), IF s = 4 THEN Cells(w) \ w.known ELSE ofStatus(Kinds[s]))
    /\ \A l \in DOMAIN o.leaves[3] : Len(o.leaves[3][l]) = 1
Axes(w) == [k \in Dirs(w) |-> k]
RuleOk(r, D, S) == /\ r.m = Moments(D, S) /\ r.ok
                   /\ (S = {}) <=> (r.n = 0)
VolumeOk(w, o) ==
    /\ Len(o.vol) = Len(o.c)
    /\ \A j \in DOMAIN o.c : LET S == CellPart(w, o.c[j]) IN
         /\ RuleOk(o.vol[j], Axes(w), S)
         /\ S = Offsets(w) => o.vol[j].n = o.npts ^ Len(w.n)
FacetsOk(w, o, q, Part(_, _, _)) ==
    /\ Len(q) = Len(o.f)
    /\ \A j \in DOMAIN o.f : LET S == Part(w, o.f[j][1], o.f[j][2]) d == DirOf(o.f[j][2]) IN
         /\ RuleOk(q[j], Free(w, d), S)
         \* whole facets get the rule with the points asked for
         /\ S = PiecesOf(w, o.f[j][2]) /\ FacetStatus(w, o.f[j][1], o.f[j][2]) \in {"full", "full_unf_bdry"}
              => q[j].n = o.npts ^ (Len(w.n) - 1)
BoundaryOk(w, o) ==
    /\ Len(o.unf) = Len(o.c)
    /\ \A j \in DOMAIN o.c : LET u == o.unf[j] c == o.c[j]
                                 places == {x \in Dirs(w) \X {-1, 1} \X (0..2) :
                                              BoundaryPart(w, c, x[1], x[2], x[3], o.include, o.exclude) # {}} IN
         /\ u.ok /\ (u.n = 0) <=> (places = {})
         /\ {<<u.pieces[p].d + 1, u.pieces[p].s, u.pieces[p].at>> : p \in DOMAIN u.pieces} = places
         /\ \A p \in DOMAIN u.pieces : LET d == u.pieces[p].d + 1 IN
              u.pieces[p].m = Moments(Free(w, d), BoundaryPart(w, c, d, u.pieces[p].s, u.pieces[p].at, o.include, o.exclude))
QuadOk(o) == LET w == World(o) IN
    /\ o.cells /\ o.facets = o.f /\ o.facets2 = o.f
    /\ VolumeOk(w, o) /\ BoundaryOk(w, o) /\ FacetsOk(w, o, o.int, IntPart) /\ FacetsOk(w, o, o.ext, ExtPart)
Ok(o) == IF o.k = "status" THEN StatusOk(o) ELSE QuadOk(o)
Init == i = 0
Next == /\ i < Len(Obs) /\ i' = i + 1
        /\ (Ok(Obs[i + 1]) \/ PrintT(<<"BAD", i + 1>>))
        /\ (i' < Len(Obs) \/ PrintT(<<"DONE", i'>>))
Spec == Init /\ [][Next]_i
=============================================================================
