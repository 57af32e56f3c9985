----------------------------- MODULE TPMeshLaws -----------------------------
\* Sanity of the specified meshes: every lattice node is used, neighbouring cells
\* share exactly the nodes of their common entity, all boundary faces are covered.
EXTENDS TPMesh, TLC
CONSTANTS MaxN, MaxP
VARIABLES n, p
Init == n \in [1..1 -> 1..MaxN] \cup [1..2 -> 1..MaxN] \cup [1..3 -> 1..2] /\ p \in 1..MaxP
Next == UNCHANGED <<n, p>>
Spec == Init /\ [][Next]_<<n, p>>
NodesOfCell(i) == LET r == ConnRow(n, p, EN!DOLFINxNodes(Len(n), p), i) IN {r[j] : j \in DOMAIN r}
Laws ==
    /\ UNION {NodesOfCell(i) : i \in All(n)} = All(NPts(n, p))
    /\ \A i \in All(n) : Cardinality(NodesOfCell(i)) = EN!Pow(p + 1, Len(n))
    /\ \A i, j \in All(n) : i # j =>
          LET d == [k \in Dims(n) |-> TensorOf(n, i)[k] - TensorOf(n, j)[k]] IN
          Cardinality(NodesOfCell(i) \cap NodesOfCell(j)) =
             IF \E k \in Dims(n) : d[k] \notin {-1, 0, 1} THEN 0
             ELSE Prod([k \in Dims(n) |-> IF d[k] = 0 THEN p + 1 ELSE 1])
=============================================================================
