------------------------------- MODULE MeshIds -------------------------------
\* Cell and node identities of a distributed mesh.
\*   original cells 0..n-1, some of them active; DOLFINx is given the active ones
\*   (row k of the connectivity is active[k]), renumbers the rows and spreads
\*   them over processes; nodes may be merged (old -> new) beforehand.
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
RangeIn(s) == {s[k] : k \in DOMAIN s}
\* v.rows[c+1]: row of local cell c; v.active: ids of the rows
OrigCell(v, c) == v.active[v.rows[c + 1] + 1]
NLocal(v) == Len(v.rows)
LocalCell(v, o) == LET S == {c \in 0..(NLocal(v) - 1) : OrigCell(v, c) = o} IN IF S = {} THEN -1 ELSE CHOOSE c \in S : TRUE
\* v.inp[k+1]: input (merged) id of local node k; v.merge[o+1]: merged id of original node o
MergedNode(v, o) == v.merge[o + 1]
LocalNode(v, o) == LET S == {k \in DOMAIN v.inp : v.inp[k] = MergedNode(v, o)} IN IF S = {} THEN -1 ELSE (CHOOSE k \in S : TRUE) - 1
\* any of the merged nodes stands for the local one
OrigNodeOk(v, k, o) == o \in 0..(Len(v.merge) - 1) /\ MergedNode(v, o) = v.inp[k + 1]
\* merging identifies exactly the coincident nodes and leaves no gap
MergeOk(cls, merge) ==
    /\ Len(merge) = Len(cls)
    /\ \A a, b \in DOMAIN cls : (merge[a] = merge[b]) <=> (cls[a] = cls[b])
    /\ RangeIn(merge) = 0..(Cardinality(RangeIn(cls)) - 1)
=============================================================================
