------------------------------- MODULE TPMesh -------------------------------
\* Tensor-product meshes: cells of the lattice n, nodes of the lattice n*p+1, both
\* numbered lexicographically; every cell lists its nodes in DOLFINx order.
EXTENDS TensorIndex
EN == INSTANCE EntityNumbering
NPts(n, p) == [k \in Dims(n) |-> n[k] * p + 1]
\* node j (0-based, DOLFINx order) of cell i
CellNode(n, p, i, l) == FlatOf(NPts(n, p), [k \in Dims(n) |-> TensorOf(n, i)[k] * p + TensorOf([m \in Dims(n) |-> p + 1], l)[k]])
ConnRow(n, p, nodes, i) == [j \in DOMAIN nodes |-> CellNode(n, p, i, nodes[j])]
\* p times the coordinate of node i in direction k, for breaks b
CoordP(n, p, b, i, k) == LET q == TensorOf(NPts(n, p), i)[k] \div p   r == TensorOf(NPts(n, p), i)[k] % p
                         IN IF r = 0 THEN p * b[k][q + 1] ELSE (p - r) * b[k][q + 1] + r * b[k][q + 2]
BBox(n, b, i) == << [k \in Dims(n) |-> b[k][TensorOf(n, i)[k] + 1]], [k \in Dims(n) |-> b[k][TensorOf(n, i)[k] + 2]] >>
\* local cells / facets of process view v lying on boundary face f of the lattice
FaceCells(n, v, f) == {c \in 0..(Len(v.orig) - 1) : v.orig[c + 1] \in Face(n, f)}
FaceFacets(n, v, f) == {v.c2f[c + 1][EN!InversePerm(EN!FaceTable(Len(n)))[f + 1] + 1] : c \in FaceCells(n, v, f)}
Uniform(lo, h, m) == [j \in 1..(m + 1) |-> lo + (j - 1) * h]
=============================================================================
