------------------------------ MODULE MeshView ------------------------------
\* One process's view of a hypercube mesh and the facet sets taken from it.
\*   v.dim, v.orig[c+1] original id of local cell c (owned first, then ghosts),
\*   v.nown owned cells, v.c2f[c+1] its facets in basix order,
\*   v.nfacets owned facets (numbered first), v.ext exterior facets.
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
EN == INSTANCE EntityNumbering
RangeOf(s) == {s[k] : k \in DOMAIN s}
Sides(v, f) == {<<c, j>> \in (0..(Len(v.c2f) - 1)) \X (0..(2 * v.dim - 1)) : v.c2f[c + 1][j + 1] = f}
Owned(v) == 0..(v.nfacets - 1)
Ext(v) == RangeOf(v.ext)
Inner(v) == Owned(v) \ Ext(v)
BothSides(v, F) == UNION {Sides(v, f) : f \in F}
\* one side of every facet of F
OneSided(v, S, F) == S \subseteq BothSides(v, F) /\ \A f \in F : Cardinality(S \cap Sides(v, f)) = 1
Lex(v, p) == <<v.orig[p[1] + 1], EN!FaceTable(v.dim)[p[2] + 1]>>
LocalOf(v, o) == IF o \in RangeOf(v.orig) THEN (CHOOSE k \in DOMAIN v.orig : v.orig[k] = o) - 1 ELSE -1
Dlf(v, p) == <<LocalOf(v, p[1]), EN!InversePerm(EN!FaceTable(v.dim))[p[2] + 1]>>
FacetOf(v, p) == v.c2f[p[1] + 1][p[2] + 1]
=============================================================================
