-------------------------- MODULE TensorIndexLaws --------------------------
\* The index space obeys the laws its users rely on; checked for every shape up
\* to MaxN, which is also the list of shapes put to the code.
EXTENDS TensorIndex, TLC, Json
CONSTANT MaxN1, MaxN2, MaxN3
VARIABLE n
Init == n \in [1..1 -> 1..MaxN1] \cup [1..2 -> 1..MaxN2] \cup [1..3 -> 1..MaxN3]
Next == UNCHANGED n
Spec == Init /\ [][Next]_n
Laws ==
    /\ \A i \in All(n) : /\ FlatOf(n, TensorOf(n, i)) = i
                         /\ \A k \in Dims(n) : TensorOf(n, i)[k] \in 0..(n[k] - 1)
    /\ Corners(n) \subseteq Boundary(n)
    /\ Internal(n) \cap Boundary(n) = {}
    /\ Cardinality(Internal(n)) = Prod([k \in Dims(n) |-> IF n[k] > 2 THEN n[k] - 2 ELSE 0])
    /\ \A f \in 0..(2 * Len(n) - 1) : Cardinality(Face(n, f)) * n[(f \div 2) + 1] = Prod(n)
    /\ PrintT(<<"CASE", ToJson([n |-> n])>>)
=============================================================================
