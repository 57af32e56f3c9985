-------------------------- MODULE UnfittedGeometry --------------------------
\* Unfitted domains whose boundary lies on the lattice that cuts every cell of a Cartesian grid in two per direction.
\* A world w: w.n cells per direction, w.bits the micro cells in the domain (two per cell and direction, and a layer of
\* them around the grid), direction 1 fastest; w.known the cells the domain was made for.
\* Cells, facets 2 * dir + side and micro cells of a cell are identified as in the code: from 0, direction 0 fastest.
EXTENDS UnfittedStatus, TensorIndex
Dirs(w) == DOMAIN w.n
Cells(w) == 0..(Prod(w.n) - 1)
Facets(w) == 0..(2 * Len(w.n) - 1)
Offsets(w) == [Dirs(w) -> 0..1]
MicroDir(w) == [k \in Dirs(w) |-> 2 * w.n[k] + 2]
In(w, t) == w.bits[FlatOf(MicroDir(w), t) + 1] = 1
Micro(w, c, o) == LET p == TensorOf(w.n, c) IN [k \in Dirs(w) |-> 2 * p[k] + 1 + o[k]]
DirOf(f) == (f \div 2) + 1
SideOf(f) == f % 2
Across(t, f) == [t EXCEPT ![DirOf(f)] = IF SideOf(f) = 0 THEN @ - 1 ELSE @ + 1]
Exterior(w, c, f) == OnSide(w.n, c, DirOf(f), SideOf(f))
\* the micro facets of a facet, by the micro cell of the cell they belong to
PiecesOf(w, f) == {o \in Offsets(w) : o[DirOf(f)] = SideOf(f)}
\* cut: inside on both sides; unf: boundary of the domain, which is on the cell's side; ext: on the other side
Class(w, c, f, o) == LET t == Micro(w, c, o) a == In(w, t) b == In(w, Across(t, f)) IN
    IF a /\ b THEN "cut" ELSE IF a THEN "unf" ELSE IF b THEN "ext" ELSE "none"
Of(w, c, f, cl) == {o \in PiecesOf(w, f) : Class(w, c, f, o) \in cl}
Filled(w, c) == {o \in Offsets(w) : In(w, Micro(w, c, o))}
CellStatus(w, c) == IF Filled(w, c) = {} THEN "empty" ELSE IF Filled(w, c) = Offsets(w) THEN "full" ELSE "cut"
Pieces(cut, unf, ext) ==
    CASE cut /\ unf /\ ext -> "cut_unf_bdry_ext_bdry" [] cut /\ unf /\ ~ext -> "cut_unf_bdry"
      [] cut /\ ~unf /\ ext -> "cut_ext_bdry" [] cut /\ ~unf /\ ~ext -> "cut"
      [] ~cut /\ unf /\ ext -> "unf_bdry_ext_bdry" [] ~cut /\ unf /\ ~ext -> "unf_bdry"
      [] ~cut /\ ~unf /\ ext -> "ext_bdry" [] OTHER -> "empty"
GeometricStatus(w, c, f) == LET all(cl) == Of(w, c, f, {cl}) = PiecesOf(w, f) some(cl) == Of(w, c, f, {cl}) # {} IN
    IF all("cut") THEN "full" ELSE IF all("unf") THEN "full_unf_bdry" ELSE IF all("ext") THEN "full_ext_bdry"
    ELSE Pieces(some("cut"), some("unf"), some("ext"))
\* cells without boundary of their own: empty ones leave the boundary to their neighbours
Plain(w, c) == CellStatus(w, c) = "empty" \/ (CellStatus(w, c) = "full" /\ \A f \in Facets(w) : GeometricStatus(w, c, f) = "full")
FacetStatus(w, c, f) == IF Plain(w, c) THEN CellStatus(w, c) ELSE GeometricStatus(w, c, f)
Known(w, c) == c \in w.known

\* -- what is asked of domains
CellIs(w, c, s) == Known(w, c) /\ CellStatus(w, c) = s
FullUnfCell(w, c) == CellIs(w, c, "full") /\ ~Plain(w, c)
CellsOfStatus(w, s) == {c \in Cells(w) : CellIs(w, c, s)}
PredOf(what, s) ==
    CASE what = "full" -> IsFull(s) [] what = "empty" -> IsEmpty(s) [] what = "cut" -> IsCut(s)
      [] what = "full_unf" -> IsFullUnf(s) [] what = "unf" -> HasUnf(s) [] what = "ext" -> HasExt(s)
FacetPred(w, what, c, f) == Known(w, c) /\ PredOf(what, FacetStatus(w, c, f))
FacetsWith(w, what) == {<<c, f>> \in Cells(w) \X Facets(w) : FacetPred(w, what, c, f)}

\* -- what is integrated: sets of micro cells and micro facets
CellPart(w, c) == IF Known(w, c) THEN Filled(w, c) ELSE {}
ExtPart(w, c, f) == IF ~Known(w, c) THEN {} ELSE Of(w, c, f, IF Exterior(w, c, f) THEN {"cut", "unf"} ELSE {"unf"})
IntPart(w, c, f) == IF ~Known(w, c) \/ Exterior(w, c, f) THEN {} ELSE Of(w, c, f, {"cut"})
\* boundary pieces inside the cell: d: normal direction, s: its sense, by the micro cell in the domain
InnerPieces(w, c, d, s) == {o \in Offsets(w) : LET t == Micro(w, c, o) f == 2 * (d - 1) + (IF s = 1 THEN 1 ELSE 0) IN
    o[d] # SideOf(f) /\ In(w, t) /\ ~In(w, Across(t, f))}
\* pieces of the unfitted boundary of a cell in the plane at (0, 1, 2 halves) with normal s * direction d
BoundaryPart(w, c, d, s, at, include, exclude) ==
    LET f == 2 * (d - 1) + (IF s = 1 THEN 1 ELSE 0) IN
    IF ~Known(w, c) THEN {}
    ELSE IF at = 1 THEN InnerPieces(w, c, d, s)
    ELSE IF at = 2 * SideOf(f) /\ include /\ ~(exclude /\ Exterior(w, c, f)) THEN Of(w, c, f, {"unf"}) ELSE {}

\* -- integrals of products of the coordinates in D over a set of pieces, in powers of 1/8
Total(S, F(_)) == MapThenSumSet(F, S)
Free(w, d) == SelectSeq([k \in Dirs(w) |-> k], LAMBDA k : k # d)
RECURSIVE Weight(_, _, _, _)
Weight(D, e, o, k) == IF k > Len(D) THEN 1
    ELSE (IF (e \div (2 ^ (k - 1))) % 2 = 1 THEN 2 * o[D[k]] + 1 ELSE 4) * Weight(D, e, o, k + 1)
Moments(D, S) == [e \in 1..(2 ^ Len(D)) |-> Total(S, LAMBDA o : Weight(D, e - 1, o, 1))]
=============================================================================
