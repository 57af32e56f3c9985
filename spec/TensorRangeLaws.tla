-------------------------- MODULE TensorRangeLaws --------------------------
\* Laws of the model itself: a strict total order; ranges visit every element once, in order; halves partition;
\* splitting on and on ends with every element alone (the k-d tree over the cells of a grid).
EXTENDS TensorRange, TLC
CONSTANTS N, D
Vecs == [1..D -> 0..N]
VARIABLES lo, hi, parts
vars == <<lo, hi, parts>>
Init == /\ lo \in Vecs /\ hi \in Vecs /\ (\A k \in 1..D : lo[k] <= hi[k])
        /\ parts = {<<lo, hi>>}
\* one leaf with more than one element is split
Split == \E p \in parts : Count(p[1], p[2]) > 1 /\ \E k \in Longest(p[1], p[2]) :
            LET m == (p[1][k] + p[2][k]) \div 2 IN
            parts' = (parts \ {p}) \cup {<<p[1], [p[2] EXCEPT ![k] = m]>>, <<[p[1] EXCEPT ![k] = m], p[2]>>}
Done == (\A p \in parts : Count(p[1], p[2]) <= 1) /\ UNCHANGED parts
Next == (Split \/ Done) /\ UNCHANGED <<lo, hi>>
Spec == Init /\ [][Next]_vars
Elements(p) == {t \in Vecs : Inside(p[1], p[2], t)}
Partition == /\ UNION {Elements(p) : p \in parts} = Elements(<<lo, hi>>)
             /\ \A p, q \in parts : p # q => Elements(p) \cap Elements(q) = {}
             /\ \A p \in parts : Count(lo, hi) > 0 => Count(p[1], p[2]) > 0
VisitsAll == LET v == Visit(lo, hi) IN
    /\ {v[i] : i \in DOMAIN v} = Elements(<<lo, hi>>)
    /\ Len(v) = Cardinality(Elements(<<lo, hi>>))
    /\ \A i \in DOMAIN v : i + 1 \in DOMAIN v => Less(v[i], v[i + 1])
Order == /\ ~ Less(lo, lo) /\ (Less(lo, hi) \/ Less(hi, lo) \/ lo = hi)
         /\ \A t \in Vecs : (Less(lo, t) /\ Less(t, hi)) => Less(lo, hi)
=============================================================================
