---------------------------- MODULE TensorIndex ----------------------------
\* Tensor-product index space: indices 0..n[1]*..*n[dim]-1, direction 1 fastest.
\* Shared by the Python class TensorProdIndex and the C++ TensorIndexTP family.
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions

Prod(n) == FoldFunction(LAMBDA a, b : a * b, 1, n)
Stride(n, k) == FoldFunction(LAMBDA a, b : a * b, 1, [j \in 1..(k - 1) |-> n[j]])
Dims(n) == 1..Len(n)
FlatOf(n, t) == FoldFunction(LAMBDA a, b : a + b, 0, [k \in Dims(n) |-> t[k] * Stride(n, k)])
TensorOf(n, i) == [k \in Dims(n) |-> (i \div Stride(n, k)) % n[k]]
All(n) == 0..(Prod(n) - 1)
Sorted(S) == SetToSortSeq(S, <)

OnSide(n, i, k, s) == TensorOf(n, i)[k] = s * (n[k] - 1)
Face(n, f) == {i \in All(n) : OnSide(n, i, (f \div 2) + 1, f % 2)}
Boundary(n) == UNION {Face(n, f) : f \in 0..(2 * Len(n) - 1)}
Internal(n) == All(n) \ Boundary(n)
BitOf(c, k) == (c \div (CASE k = 1 -> 1 [] k = 2 -> 2 [] k = 3 -> 4)) % 2
Corner(n, c) == FlatOf(n, [k \in Dims(n) |-> BitOf(c, k) * (n[k] - 1)])
Corners(n) == {Corner(n, c) : c \in 0..((CASE Len(n) = 1 -> 2 [] Len(n) = 2 -> 4 [] Len(n) = 3 -> 8) - 1)}
\* indices on the entity fixing directions to sides (2 = free)
OnEntity(n, e) == {i \in All(n) : \A k \in Dims(n) : e[k] = 2 \/ OnSide(n, i, k, e[k])}
=============================================================================
