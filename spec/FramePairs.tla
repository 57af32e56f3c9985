----------------------------- MODULE FramePairs -----------------------------
(* Two cells of a mesh sharing a facet: facet f0 of the first is facet f1   *)
(* of the second, the vertices of the facet have global numbers g in the    *)
(* order of the first cell, and the second lists them as symmetry s says.   *)
EXTENDS FacetFrames, TLC, Json
CONSTANT Wanted          \* cells enumerated
VARIABLE c
Pick == {x \in [cell : Wanted, f0 : 0 .. 5, f1 : 0 .. 5] : x.f0 < Len(F[x.cell]) /\ x.f1 < Len(F[x.cell])}
Init == \E x \in Pick : \E g \in Orders(NV[FCell[x.cell]]) : \E s \in Sym(FCell[x.cell]) :
          c = [cell |-> x.cell, f0 |-> x.f0, f1 |-> x.f1, g0 |-> g, g1 |-> [i \in 1 .. Len(g) |-> g[s[i]]]]
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Emit == PrintT(<<"CASE", ToJson([c EXCEPT !.cell = c.cell] @@ [p0 |-> PermNumber(FCell[c.cell], c.g0), p1 |-> PermNumber(FCell[c.cell], c.g1)])>>)
=============================================================================
