---------------------------- MODULE TensorRange ----------------------------
\* Boxes of tensor indices lo <= t < hi of the C++ TensorIndexRangeTP, the order of indices, and how boxes are split.
EXTENDS TensorIndex

\* indices are compared from the last component on
Less(a, b) == \E k \in DOMAIN a : a[k] < b[k] /\ \A j \in DOMAIN a : j > k => a[j] = b[j]
\* the elements of a range in the order in which it visits them: first component fastest
Extent(lo, hi) == [k \in DOMAIN lo |-> hi[k] - lo[k]]
Count(lo, hi) == Prod(Extent(lo, hi))
Visit(lo, hi) == [p \in 1..Count(lo, hi) |-> [k \in DOMAIN lo |-> lo[k] + TensorOf(Extent(lo, hi), p - 1)[k]]]
Inside(lo, hi, t) == \A k \in DOMAIN lo : lo[k] <= t[k] /\ t[k] < hi[k]
Longest(lo, hi) == {k \in DOMAIN lo : \A j \in DOMAIN lo : Extent(lo, hi)[j] <= Extent(lo, hi)[k]}
\* both halves are non empty boxes cut across one of the longest directions
IsSplit(lo, hi, al, ah, bl, bh) == \E k \in Longest(lo, hi) : \E m \in (lo[k] + 1)..(hi[k] - 1) :
    /\ al = lo /\ ah = [hi EXCEPT ![k] = m]
    /\ bl = [lo EXCEPT ![k] = m] /\ bh = hi
=============================================================================
