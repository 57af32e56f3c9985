-------------------------- MODULE EntityNumbering --------------------------
\* Sub-entities (vertices, edges, faces) and nodes of the reference hypercube
\* [0,1]^dim and the three numberings QUGaR converts between:
\*   lexicographical: nodes with direction 0 fastest; face 2*d+s is {x_d = s};
\*                    edges along z (4 corners), then along y, then along x;
\*   DOLFINx (basix): sub-entities of each dimension ordered by their vertices,
\*                    nodes ordered by the sub-entity they are interior to;
\*   VTK            : vertices counter-clockwise, boundary rings.
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions

Pow(b, e) == FoldFunction(LAMBDA v, w : v * w, 1, [i \in 1..e |-> b])
Bit(c, k) == (c \div Pow(2, k - 1)) % 2

\* A sub-entity fixes some directions to a side (0 or 1), the others (2) are free.
Free == 2
Entities(dim, d) == {e \in [1..dim -> 0..2] : Cardinality({k \in 1..dim : e[k] = Free}) = d}
Verts(dim, e) == {c \in 0..(Pow(2, dim) - 1) : \A k \in 1..dim : e[k] = Free \/ e[k] = Bit(c, k)}
\* lexicographical comparison of the sorted vertex lists of entities of one dimension
Before(dim, e, f) == e # f /\ LET A == Verts(dim, e)  B == Verts(dim, f) IN Min(SymDiff(A, B)) \in A
BasixEntities(dim, d) == SetToSortSeq(Entities(dim, d), LAMBDA e, f : Before(dim, e, f))

LexFace(dim, id) == [k \in 1..dim |-> IF k = (id \div 2) + 1 THEN id % 2 ELSE Free]
\* edges of the hexahedron: id = 4*(3-k) + i runs along direction k from its i-th corner with bit k = 0
LexEdge3(id) == LET k == 3 - (id \div 4)
                    corners == SetToSortSeq({c \in 0..7 : Bit(c, k) = 0}, <)
                    c == corners[(id % 4) + 1]
                IN [j \in 1..3 |-> IF j = k THEN Free ELSE Bit(c, j)]
LexEdge(dim, id) == IF dim = 3 THEN LexEdge3(id) ELSE LexFace(dim, id)

\* ---- nodes of degree p -------------------------------------------------------
Flat(p, x) == FoldFunction(LAMBDA v, w : v + w, 0, [k \in DOMAIN x |-> x[k] * Pow(p + 1, k - 1)])
\* nodes interior to entity e, lowest free direction fastest
Interior(dim, p, e) ==
    LET S == {x \in [1..dim -> 0..p] : \A k \in 1..dim : IF e[k] = Free THEN x[k] \in 1..(p - 1) ELSE x[k] = e[k] * p}
    IN SetToSortSeq({Flat(p, x) : x \in S}, <)
Concat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
NodesOf(dim, p, es) == Concat([i \in 1..Len(es) |-> Interior(dim, p, es[i])])
DOLFINxNodes(dim, p) == Concat([d \in 1..(dim + 1) |-> NodesOf(dim, p, BasixEntities(dim, d - 1))])

E1(a) == <<a>>
VTKEntities(dim) ==
    CASE dim = 1 -> <<<<0>>, <<1>>, <<2>>>>
      [] dim = 2 -> <<<<0, 0>>, <<1, 0>>, <<1, 1>>, <<0, 1>>,
                      <<2, 0>>, <<1, 2>>, <<2, 1>>, <<0, 2>>, <<2, 2>>>>
      [] dim = 3 -> <<<<0, 0, 0>>, <<1, 0, 0>>, <<1, 1, 0>>, <<0, 1, 0>>,
                      <<0, 0, 1>>, <<1, 0, 1>>, <<1, 1, 1>>, <<0, 1, 1>>,
                      <<2, 0, 0>>, <<1, 2, 0>>, <<2, 1, 0>>, <<0, 2, 0>>,
                      <<2, 0, 1>>, <<1, 2, 1>>, <<2, 1, 1>>, <<0, 2, 1>>,
                      <<0, 0, 2>>, <<1, 0, 2>>, <<1, 1, 2>>, <<0, 1, 2>>,
                      <<0, 2, 2>>, <<1, 2, 2>>, <<2, 0, 2>>, <<2, 1, 2>>, <<2, 2, 0>>, <<2, 2, 1>>,
                      <<2, 2, 2>>>>
VTKNodes(dim, p) == NodesOf(dim, p, VTKEntities(dim))

\* position (0-based) of every value in a permutation of 0..n-1
InversePerm(s) == [i \in 1..Len(s) |-> (CHOOSE j \in 1..Len(s) : s[j] = i - 1) - 1]
Compose(f, g) == [i \in 1..Len(g) |-> f[g[i] + 1]]
IsPerm(s) == {s[i] : i \in DOMAIN s} = 0..(Len(s) - 1)

\* faces/edges: index of the lexicographical entity standing at each basix position
FaceTable(dim) == LET b == BasixEntities(dim, dim - 1) IN
    [i \in 1..Len(b) |-> CHOOSE j \in 0..(2 * dim - 1) : LexFace(dim, j) = b[i]]
EdgeTable(dim) == IF dim < 3 THEN FaceTable(dim) ELSE
    LET b == BasixEntities(3, 1) IN [i \in 1..12 |-> CHOOSE j \in 0..11 : LexEdge3(j) = b[i]]
VTKFaces2 == <<2, 1, 3, 0>>

\* expected answer of each function of qugar.mesh.utils
Expected(name, dim, p) ==
    CASE name = "DOLFINx_to_lexicg_nodes" -> DOLFINxNodes(dim, p)
      [] name = "lexicg_to_DOLFINx_nodes" -> InversePerm(DOLFINxNodes(dim, p))
      [] name = "VTK_to_lexicg_nodes" -> VTKNodes(dim, p)
      [] name = "lexicg_to_VTK_nodes" -> InversePerm(VTKNodes(dim, p))
      [] name = "DOLFINx_to_VTK_nodes" -> Compose(InversePerm(VTKNodes(dim, p)), DOLFINxNodes(dim, p))
      [] name = "VTK_to_DOLFINx_nodes" -> Compose(InversePerm(DOLFINxNodes(dim, p)), VTKNodes(dim, p))
      [] name = "lexicg_to_DOLFINx_faces" -> FaceTable(dim)
      [] name = "DOLFINx_to_lexicg_faces" -> InversePerm(FaceTable(dim))
      [] name = "lexicg_to_DOLFINx_edges" -> EdgeTable(dim)
      [] name = "DOLFINx_to_lexicg_edges" -> InversePerm(EdgeTable(dim))

NodeNames == {"DOLFINx_to_lexicg_nodes", "lexicg_to_DOLFINx_nodes", "VTK_to_lexicg_nodes", "lexicg_to_VTK_nodes",
              "DOLFINx_to_VTK_nodes", "VTK_to_DOLFINx_nodes"}
FaceNames == {"lexicg_to_DOLFINx_faces", "DOLFINx_to_lexicg_faces", "lexicg_to_DOLFINx_edges", "DOLFINx_to_lexicg_edges"}
=============================================================================
