------------------------------ MODULE CartGrid ------------------------------
\* Cartesian grids over lattice coordinates: cells between consecutive breaks, numbered by TensorIndex; boxes of cells;
\* points that belong to cells up to a tolerance; boxes of coordinates; comparisons with a tolerance; merging points.
EXTENDS TensorRange

AbsOf(x) == IF x < 0 THEN -x ELSE x
MaxOf(a, b) == IF a < b THEN b ELSE a
MinOf(a, b) == IF a < b THEN a ELSE b

\* -- grids: b[k] are the breaks along direction k
CellsDir(b) == [k \in DOMAIN b |-> Len(b[k]) - 1]
LoCorner(b, t) == [k \in DOMAIN b |-> b[k][t[k] + 1]]
CellBox(b, c) == LET t == TensorOf(CellsDir(b), c) IN
    [lo |-> LoCorner(b, t), hi |-> LoCorner(b, [k \in DOMAIN t |-> t[k] + 1])]
RangeBox(b, lo, hi) == [lo |-> LoCorner(b, lo), hi |-> LoCorner(b, hi)]
RangeCells(b, lo, hi) == LET v == Visit(lo, hi) IN [p \in DOMAIN v |-> FlatOf(CellsDir(b), v[p])]
OnBoundary(b, c, f) == OnSide(CellsDir(b), c, (f \div 2) + 1, f % 2)
BoundaryCells(b, f) == {c \in All(CellsDir(b)) : OnBoundary(b, c, f)}

\* -- points, tolerance tol
Touches(b, k, i, x, tol) == b[k][i] - tol <= x /\ x <= b[k][i + 1] + tol
CellsOf(b, p, tol) == {c \in All(CellsDir(b)) : \A k \in DOMAIN b : Touches(b, k, TensorOf(CellsDir(b), c)[k] + 1, p[k], tol)}
CellAt(b, p, tol) == Min(CellsOf(b, p, tol))
BreakAt(b, k, x, tol) == \E i \in 2..(Len(b[k]) - 1) : AbsOf(b[k][i] - x) <= tol
DirsAt(b, p, tol) == {k - 1 : k \in {j \in DOMAIN b : BreakAt(b, j, p[j], tol)}}

\* -- comparisons of reals
Eq(t, a, b) == AbsOf(a - b) <= t
Gt(t, a, b) == a - b > t

\* -- merging: coordinates are given so that "within tol" is transitive in every component
Coincide(t, p, q) == \A k \in DOMAIN p : Eq(t, p[k], q[k])
=============================================================================
