----------------------------- MODULE FrameJudge -----------------------------
(* Packed points of facets (PackLayout) judged by where they are: the same  *)
(* place for the two sides, for the point that was asked for and, in mixed  *)
(* dimensions, for the point of the facet.  ents[e]: lf (facets), g0 and g1 *)
(* (global numbers of the vertices of the facet as the cells list them),    *)
(* q[k].p (points of the rule, as seen from the first cell).                *)
EXTENDS PackLayout, TLC, Json, IOUtils
Obs == ndJsonDeserialize(IOEnv.OBS)
(* weight of vertex v (from 0) at point p of the cell *)
RECURSIVE Prod(_, _, _)
Prod(p, x, d) == IF d = 0 THEN 1 ELSE Prod(p, x, d - 1) * (IF x[d] = 1 THEN p[d] ELSE 1 - p[d])
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
VWeight(cell, p, v) ==
  LET x == V[cell][v + 1] IN
  IF cell \in {"quadrilateral", "hexahedron"} THEN Prod(p, x, Len(x))
  ELSE IF v = 0 THEN 1 - Sum(p) ELSE p[v]
Place(cell, f, g, p) == {<<g[i], VWeight(cell, p, F[cell][f + 1][i])>> : i \in 1 .. Len(g)}
OnIt(cell, f, p) == \A v \in 0 .. Len(V[cell]) - 1 : (\A i \in 1 .. Len(F[cell][f + 1]) : F[cell][f + 1][i] # v) => VWeight(cell, p, v) = 0
QOK(rec, e, k) ==
  LET n == rec.ents[e]
      x == n.q[k].p
      fc == FCell[rec.cell]
      P0 == Points(rec, e, k) P1 == Points1(rec, e, k) PF == FacetPoints(rec, e, k)
      want(j) == Weights(fc, n.g0, x[j])
  IN /\ NPts(rec, e, k) = Len(x)
     /\ \A j \in 1 .. Len(x) : OnIt(rec.cell, n.lf[1], P0[j]) /\ Place(rec.cell, n.lf[1], n.g0, P0[j]) = want(j)
     /\ rec.type = "interior_facet" =>
          \A j \in 1 .. Len(x) : OnIt(rec.cell, n.lf[2], P1[j]) /\ Place(rec.cell, n.lf[2], n.g1, P1[j]) = want(j)
     /\ rec.mixed => \A j \in 1 .. Len(x) : Weights(fc, Listing(fc, n.g0), PF[j]) = want(j)
OK(rec) == \A e \in 1 .. Len(rec.ents) : \A k \in 1 .. Len(rec.quads) : QOK(rec, e, k)
VARIABLE i
Init == i = 0
Next == /\ i < Len(Obs) /\ i' = i + 1
        /\ ~OK(Obs[i + 1]) => PrintT(<<"BAD", i + 1>>)
        /\ i' = Len(Obs) => PrintT(<<"DONE", i'>>)
Spec == Init /\ [][Next]_i
=============================================================================
