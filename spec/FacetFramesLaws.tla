-------------------------- MODULE FacetFramesLaws --------------------------
EXTENDS FacetFrames, TLC
VARIABLES fc, g, s, y
Grid == -1 .. 2
Init == /\ fc \in DOMAIN FDim
        /\ g \in Orders(NV[fc])
        /\ s \in Sym(fc)
        /\ y \in [1 .. FDim[fc] -> Grid]
Next == UNCHANGED <<fc, g, s, y>>
Spec == Init /\ [][Next]_<<fc, g, s, y>>
h == [i \in 1 .. NV[fc] |-> g[s[i]]]
(* the same point of the global frame is the same place, seen from either cell *)
SamePlace == Weights(fc, g, Permute(fc, PermNumber(fc, g), y)) = Weights(fc, h, Permute(fc, PermNumber(fc, h), y))
(* there and back *)
Inverse == \A p \in 0 .. NPerms[fc] - 1 : /\ Unpermute(fc, p, Permute(fc, p, y)) = y
                                          /\ Permute(fc, p, Unpermute(fc, p, y)) = y
(* a point seen from one cell and taken to the other *)
Across == Weights(fc, g, y) = Weights(fc, h, Permute(fc, PermNumber(fc, h), Unpermute(fc, PermNumber(fc, g), y)))
(* every permutation number occurs, and facet points lie on the facet *)
Numbers == {PermNumber(fc, [i \in 1 .. NV[fc] |-> g[x[i]]]) : x \in Sym(fc)} = 0 .. NPerms[fc] - 1
=============================================================================
