------------------------ MODULE UnfittedGeometryLaws ------------------------
\* What the definitions of UnfittedGeometry promise, in all small worlds.
EXTENDS UnfittedGeometry, TLC
CONSTANTS Shape, Loose
S21 == <<2, 1>>
S12 == <<1, 2>>
S22 == <<2, 2>>
S111 == <<1, 1, 1>>
AllSides == 0..(2 * Len(Shape) - 1)
OddSides == {f \in AllSides : f % 2 = 1}
VARIABLES own, side
\* the micro cells of the grid, one by one, and the layer around it: one value per side; corners of the layer play no role
Grid(t) == \A k \in DOMAIN Shape : t[k] \in 1..(2 * Shape[k])
SideAt(t) == LET k == CHOOSE j \in DOMAIN Shape : t[j] \notin 1..(2 * Shape[j]) IN 2 * (k - 1) + (IF t[k] = 0 THEN 0 ELSE 1)
Shell == [k \in DOMAIN Shape |-> 2 * Shape[k] + 2]
Tup(j) == TensorOf(Shell, j - 1)
Own == {j \in 1..Prod(Shell) : Grid(Tup(j))}
Order == SetToSortSeq(Own, <)
Init == own = <<>> /\ side \in [AllSides -> 0..1] /\ \A f \in AllSides \ Loose : side[f] = 0
Next == Len(own) < Len(Order) /\ \E b \in 0..1 : own' = Append(own, b) /\ UNCHANGED side
Spec == Init /\ [][Next]_<<own, side>>
Complete == Len(own) = Len(Order)
Place(j) == CHOOSE p \in DOMAIN Order : Order[p] = j
bits == [j \in 1..Prod(Shell) |-> IF j \in Own THEN own[Place(j)] ELSE side[SideAt(Tup(j))]]
w == [n |-> Shape, bits |-> bits, known |-> 0..(Prod(Shape) - 1)]
All2 == Cells(w) \X Facets(w)
Neighbour(c, f) == LET p == TensorOf(w.n, c) IN FlatOf(w.n, Across(p, f))
Opposite(f) == IF SideOf(f) = 0 THEN f + 1 ELSE f - 1
Mirror(o, f) == [o EXCEPT ![DirOf(f)] = 1 - @]
\* facets are inside, partly inside, or not at all; statuses tell exactly what the pieces are
StatusLaw == \A x \in All2 : LET c == x[1] f == x[2] s == GeometricStatus(w, c, f) IN
    /\ s \in Statuses
    /\ Inside(s) = (IF Of(w, c, f, {"cut"}) = PiecesOf(w, f) THEN "all" ELSE IF Of(w, c, f, {"cut"}) = {} THEN "none" ELSE "part")
    /\ HasUnf(s) = (Of(w, c, f, {"unf"}) # {}) /\ HasExt(s) = (Of(w, c, f, {"ext"}) # {})
    /\ Plain(w, c) /\ CellStatus(w, c) = "full" => s = "full"
\* both cells of a facet agree on what is inside, and each boundary piece is one's own
TwoSides == \A x \in All2 : LET c == x[1] f == x[2] IN ~Exterior(w, c, f) =>
    LET b == Neighbour(c, f) g == Opposite(f) IN
    /\ {Mirror(o, f) : o \in IntPart(w, c, f)} = IntPart(w, b, g)
    /\ {Mirror(o, f) : o \in Of(w, c, f, {"unf"})} = Of(w, b, g, {"ext"})
N(S, D) == Moments(D, S)[1] \div (4 ^ Len(D))
Normal(d, s, inc, exc) == Total(Cells(w), LAMBDA c : Total(0..2, LAMBDA at : Cardinality(BoundaryPart(w, c, d, s, at, inc, exc))))
\* the boundary of what is inside closes: unfitted boundary in the grid and part of the grid's own boundary inside
Closed == \A d \in Dirs(w) :
    LET cap(z) == Total({c \in Cells(w) : Exterior(w, c, 2 * (d - 1) + z)},
                            LAMBDA c : Cardinality(ExtPart(w, c, 2 * (d - 1) + z))) IN
    Normal(d, 1, TRUE, TRUE) + cap(1) = Normal(d, -1, TRUE, TRUE) + cap(0)
\* every piece of the boundary belongs to exactly one cell
Once == \A d \in Dirs(w) : \A s \in {-1, 1} :
    Normal(d, s, TRUE, FALSE) = Cardinality({t \in {Tup(j) : j \in Own} : In(w, t) /\ ~In(w, Across(t, 2 * (d - 1) + (IF s = 1 THEN 1 ELSE 0)))})
\* measures add up
Volume == Total(Cells(w), LAMBDA c : N(CellPart(w, c), [k \in Dirs(w) |-> k])) = Cardinality({j \in Own : bits[j] = 1})
\* integrals over exterior facets and over the unfitted boundary cover the same pieces where both do
Covered == \A x \in All2 : LET c == x[1] f == x[2] s == IF SideOf(f) = 1 THEN 1 ELSE -1 IN
    /\ BoundaryPart(w, c, DirOf(f), s, 2 * SideOf(f), TRUE, FALSE) \subseteq ExtPart(w, c, f)
    /\ ~Exterior(w, c, f) => ExtPart(w, c, f) = BoundaryPart(w, c, DirOf(f), s, 2 * SideOf(f), TRUE, FALSE)
    /\ ExtPart(w, c, f) \cap IntPart(w, c, f) = {}
Laws == Complete => StatusLaw /\ TwoSides /\ Closed /\ Once /\ Volume /\ Covered
\* the moments tell the pieces apart: different sets of pieces have different moments
Axes == [k \in DOMAIN Shape |-> k]
ASSUME Faithful == Cardinality({Moments(Axes, S) : S \in SUBSET [DOMAIN Shape -> 0..1]}) = 2 ^ (2 ^ Len(Shape))
=============================================================================
