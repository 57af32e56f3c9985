---------------------------- MODULE CartGridLaws ----------------------------
\* The cells tile the domain: every point is in a cell, interiors are disjoint, boundary facets are those without neighbour.
EXTENDS CartGrid, TLC
CONSTANTS M
Brk == {b \in UNION {[1..n -> 0..M] : n \in 2..3} : \A i \in 1..(Len(b) - 1) : b[i] + 1 < b[i + 1]}
VARIABLE b
Init == b \in [1..2 -> Brk]
Next == UNCHANGED b
Spec == Init /\ [][Next]_b
Pts == {p \in [1..2 -> 0..M] : \A k \in 1..2 : b[k][1] <= p[k] /\ p[k] <= b[k][Len(b[k])]}
Tile == \A p \in Pts : /\ CellsOf(b, p, 0) # {}
                       /\ (Cardinality(CellsOf(b, p, 0)) > 1 <=> DirsAt(b, p, 0) # {})
                       /\ Cardinality(CellsOf(b, p, 0)) = (CASE DirsAt(b, p, 0) = {} -> 1 [] Cardinality(DirsAt(b, p, 0)) = 1 -> 2 [] OTHER -> 4)
Neighbour(c, f) == LET t == TensorOf(CellsDir(b), c) k == (f \div 2) + 1 IN
    [t EXCEPT ![k] = t[k] + (IF f % 2 = 0 THEN -1 ELSE 1)]
Edges == \A c \in All(CellsDir(b)), f \in 0..3 : OnBoundary(b, c, f) <=>
    ~ Inside([k \in 1..2 |-> 0], CellsDir(b), Neighbour(c, f))
=============================================================================
