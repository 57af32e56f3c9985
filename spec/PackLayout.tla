----------------------------- MODULE PackLayout ----------------------------
(* The array of packed coefficients of one integral, as the kernels read   *)
(* it: every entity has its standard coefficients, then an integer: how    *)
(* many reals further (from the entity's first value) its custom data      *)
(* begin; negative for full entities, zero for empty ones.  Custom data,   *)
(* quadrature by quadrature: number of points, points in the cell, points  *)
(* in the cell of side 1 (interior facets), points in the facet (mixed     *)
(* dimensions), weights, normals (unfitted boundaries).                    *)
EXTENDS FacetFrames
(* rec: cell, type, mixed, ratio (reals per coefficient), cols (coefficients per row), cstd (standard coefficients per *)
(* row), ents, V (reals), I (integers starting at every real), quads *)
Sides(rec) == IF rec.type = "interior_facet" THEN 2 ELSE 1
Base(rec, e) == (e - 1) * Sides(rec) * rec.cols * rec.ratio              \* reals before entity e
NStd(rec) == rec.cstd * Sides(rec) * rec.ratio
Offset(rec, e) == rec.I[Base(rec, e) + NStd(rec) + 1]
Rows(rec) == Len(rec.ents) * Sides(rec) * rec.cols * rec.ratio           \* reals in the rows of the entities
ModeOf(rec, e) == LET o == Offset(rec, e) IN IF o < 0 THEN "full" ELSE IF o = 0 THEN "empty" ELSE "cut"
Start(rec, e) == Base(rec, e) + Offset(rec, e)

GDim(rec) == Dim(rec.cell)
Width(rec, q) ==         \* reals per point
  GDim(rec) + (IF rec.type = "interior_facet" THEN GDim(rec) ELSE 0) + (IF rec.mixed THEN GDim(rec) - 1 ELSE 0) + 1
   + (IF rec.quads[q].unf THEN GDim(rec) ELSE 0)
RECURSIVE QuadStart(_, _, _)
(* reals before quadrature q of entity e *)
QuadStart(rec, e, q) == IF q = 1 THEN Start(rec, e)
                        ELSE LET s == QuadStart(rec, e, q - 1) IN s + 1 + rec.V[s + 1] * Width(rec, q - 1)
EndOf(rec, e) == LET n == Len(rec.quads) s == QuadStart(rec, e, n) IN s + 1 + rec.V[s + 1] * Width(rec, n)
NPts(rec, e, q) == rec.V[QuadStart(rec, e, q) + 1]
Block(rec, at, n, k) == [i \in 1 .. n |-> [d \in 1 .. k |-> rec.V[at + (i - 1) * k + d]]]
Points(rec, e, q) == Block(rec, QuadStart(rec, e, q) + 1, NPts(rec, e, q), GDim(rec))
After0(rec, e, q) == QuadStart(rec, e, q) + 1 + NPts(rec, e, q) * GDim(rec)
Points1(rec, e, q) == Block(rec, After0(rec, e, q), NPts(rec, e, q), GDim(rec))
After1(rec, e, q) == After0(rec, e, q) + (IF rec.type = "interior_facet" THEN NPts(rec, e, q) * GDim(rec) ELSE 0)
FacetPoints(rec, e, q) == Block(rec, After1(rec, e, q), NPts(rec, e, q), GDim(rec) - 1)
After2(rec, e, q) == After1(rec, e, q) + (IF rec.mixed THEN NPts(rec, e, q) * (GDim(rec) - 1) ELSE 0)
PWeights(rec, e, q) == Block(rec, After2(rec, e, q), NPts(rec, e, q), 1)
Normals(rec, e, q) == Block(rec, After2(rec, e, q) + NPts(rec, e, q), NPts(rec, e, q), GDim(rec))
=============================================================================
