---------------------------- MODULE FacetFrames ----------------------------
(* Reference cells, their facets, and the frames in which the points of a  *)
(* facet are given: as seen from a cell (the facet's vertices in the order  *)
(* the cell lists them) or globally (from the lowest-numbered vertex).      *)
EXTENDS Integers, Sequences, FiniteSets

V ==  [triangle |-> << <<0, 0>>, <<1, 0>>, <<0, 1>> >>,
       quadrilateral |-> << <<0, 0>>, <<1, 0>>, <<0, 1>>, <<1, 1>> >>,
       tetrahedron |-> << <<0, 0, 0>>, <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >>,
       hexahedron |-> << <<0, 0, 0>>, <<1, 0, 0>>, <<0, 1, 0>>, <<1, 1, 0>>, <<0, 0, 1>>, <<1, 0, 1>>, <<0, 1, 1>>, <<1, 1, 1>> >>]
F ==  [triangle |-> << <<1, 2>>, <<0, 2>>, <<0, 1>> >>,
       quadrilateral |-> << <<0, 1>>, <<0, 2>>, <<1, 3>>, <<2, 3>> >>,
       tetrahedron |-> << <<1, 2, 3>>, <<0, 2, 3>>, <<0, 1, 3>>, <<0, 1, 2>> >>,
       hexahedron |-> << <<0, 1, 2, 3>>, <<0, 1, 4, 5>>, <<0, 2, 4, 6>>, <<1, 3, 5, 7>>, <<2, 3, 6, 7>>, <<4, 5, 6, 7>> >>]
Cells == DOMAIN V
FCell == [triangle |-> "interval", quadrilateral |-> "interval", tetrahedron |-> "triangle", hexahedron |-> "quadrilateral"]
FDim == [interval |-> 1, triangle |-> 2, quadrilateral |-> 2]
NPerms == [interval |-> 2, triangle |-> 6, quadrilateral |-> 8]
Dim(cell) == Len(V[cell][1])

(* point of facet f (from 0) as seen from the cell -> point of the cell *)
OnFacet(cell, f, y) ==
  LET t == F[cell][f + 1]
      o == V[cell][t[1] + 1]
  IN [d \in 1 .. Dim(cell) |-> o[d] + (y[1] * (V[cell][t[2] + 1][d] - o[d])
        + (IF Len(y) > 1 THEN y[2] * (V[cell][t[3] + 1][d] - o[d]) ELSE 0))]

(* the permutation number p of a facet: p \div 2 rotations, then a reflection if p is odd *)
Rot(fc, y) == IF fc = "quadrilateral" THEN <<y[2], 1 - y[1]>> ELSE <<y[2], 1 - y[1] - y[2]>>
RECURSIVE Rots(_, _, _)
Rots(fc, k, y) == IF k = 0 THEN y ELSE Rots(fc, k - 1, Rot(fc, y))
Flip(fc, y) == IF fc = "interval" THEN <<1 - y[1]>> ELSE <<y[2], y[1]>>
(* global frame -> frame seen from the cell *)
Permute(fc, p, y) ==
  IF fc = "interval" THEN (IF p % 2 = 1 THEN Flip(fc, y) ELSE y)
  ELSE LET z == Rots(fc, p \div 2, y) IN IF p % 2 = 1 THEN Flip(fc, z) ELSE z
RECURSIVE RotsInv(_, _, _)
RotInv(fc, z) == IF fc = "quadrilateral" THEN <<1 - z[2], z[1]>> ELSE <<1 - z[1] - z[2], z[1]>>
RotsInv(fc, k, y) == IF k = 0 THEN y ELSE RotsInv(fc, k - 1, RotInv(fc, y))
(* frame seen from the cell -> global frame *)
Unpermute(fc, p, y) ==
  IF fc = "interval" THEN (IF p % 2 = 1 THEN Flip(fc, y) ELSE y)
  ELSE RotsInv(fc, p \div 2, IF p % 2 = 1 THEN Flip(fc, y) ELSE y)

(* where the point y of a facet, as seen from a cell that lists its vertices as g, is: *)
(* the weight of every vertex (affine for simplices, bilinear for quadrilaterals)      *)
Weights(fc, g, y) ==
  CASE fc = "interval" -> { <<g[1], 1 - y[1]>>, <<g[2], y[1]>> }
    [] fc = "triangle" -> { <<g[1], 1 - y[1] - y[2]>>, <<g[2], y[1]>>, <<g[3], y[2]>> }
    [] fc = "quadrilateral" -> { <<g[1], (1 - y[1]) * (1 - y[2])>>, <<g[2], y[1] * (1 - y[2])>>,
                                 <<g[3], (1 - y[1]) * y[2]>>, <<g[4], y[1] * y[2]>> }
(* The permutation number of a facet whose vertices, in the cell's order, have the global numbers g.   *)
(* Global frame: the lowest vertex is the origin, the lower of its two neighbours lies on the first    *)
(* axis.  FFCx's interior facet tables assume exactly that equal global points are equal places.       *)
Opposite(fc, i) == IF fc = "quadrilateral" THEN 5 - i ELSE 0
ArgMin(g, S) == CHOOSE i \in S : \A j \in S : g[i] <= g[j]
Listing(fc, g) ==
  IF fc = "interval" THEN (IF g[1] < g[2] THEN g ELSE <<g[2], g[1]>>) ELSE
  LET m == ArgMin(g, 1 .. Len(g))
      nb == {i \in 1 .. Len(g) : i # m /\ i # Opposite(fc, m)}
      a == ArgMin(g, nb)
      b == CHOOSE i \in nb : i # a
  IN CASE fc = "triangle" -> <<g[m], g[a], g[b]>>
       [] fc = "quadrilateral" -> <<g[m], g[a], g[b], g[Opposite(fc, m)]>>
Generic(fc) == IF fc = "interval" THEN <<3>> ELSE <<3, 7>>
PermNumber(fc, g) == CHOOSE p \in 0 .. NPerms[fc] - 1 :
   Weights(fc, g, Permute(fc, p, Generic(fc))) = Weights(fc, Listing(fc, g), Generic(fc))

(* the ways a second cell may list the vertices of a facet *)
Sym(fc) ==
  CASE fc = "interval" -> {<<1, 2>>, <<2, 1>>}
    [] fc = "triangle" -> {<<1, 2, 3>>, <<2, 3, 1>>, <<3, 1, 2>>, <<1, 3, 2>>, <<3, 2, 1>>, <<2, 1, 3>>}
    [] fc = "quadrilateral" -> {<<1, 2, 3, 4>>, <<2, 4, 1, 3>>, <<4, 3, 2, 1>>, <<3, 1, 4, 2>>,
                                <<1, 3, 2, 4>>, <<3, 4, 1, 2>>, <<4, 2, 3, 1>>, <<2, 1, 4, 3>>}
NV == [interval |-> 2, triangle |-> 3, quadrilateral |-> 4]
Orders(n) == {g \in [1 .. n -> 1 .. n] : \A i, j \in 1 .. n : i # j => g[i] # g[j]}
=============================================================================
