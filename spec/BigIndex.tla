------------------------------ MODULE BigIndex ------------------------------
\* Ids of index spaces with more elements than TLC's integers reach, written in digits of base 1000, lowest first,
\* without leading zeros (0 is <<>>).  Every direction has at most 10^6 indices.
EXTENDS Integers, Sequences, Functions
RECURSIVE MulAdd(_, _, _)
MulAdd(ds, m, a) == IF ds = <<>> THEN (IF a = 0 THEN <<>> ELSE <<a % 1000>> \o MulAdd(<<>>, m, a \div 1000))
                    ELSE LET v == ds[1] * m + a IN <<v % 1000>> \o MulAdd(Tail(ds), m, v \div 1000)
RECURSIVE Trim(_)
Trim(ds) == IF ds = <<>> \/ ds[Len(ds)] # 0 THEN ds ELSE Trim(SubSeq(ds, 1, Len(ds) - 1))
RECURSIVE BigFlatFrom(_, _, _)
BigFlatFrom(n, t, k) == IF k > Len(n) THEN <<>> ELSE MulAdd(BigFlatFrom(n, t, k + 1), n[k], t[k])
\* the id of the element t (indices from 0, the first one fastest) of the space n
BigFlat(n, t) == Trim(BigFlatFrom(n, t, 1))
BigProd(n) == FoldFunction(LAMBDA m, ds : MulAdd(ds, m, 0), <<1>>, n)
\* the p-th element (from 0) of the slice of the space whose fixed directions are those with fix[k] >= 0
RECURSIVE SliceElem(_, _, _, _)
SliceElem(n, fix, p, k) == IF k > Len(n) THEN <<>>
    ELSE IF fix[k] >= 0 THEN <<fix[k]>> \o SliceElem(n, fix, p, k + 1)
    ELSE <<p % n[k]>> \o SliceElem(n, fix, p \div n[k], k + 1)
SliceCount(n, fix) == FoldFunction(LAMBDA m, acc : m * acc, 1, [k \in DOMAIN n |-> IF fix[k] >= 0 THEN 1 ELSE n[k]])
\* the p-th element (from 0) of the boundary of a space with at least two indices per direction, in the order of the ids
Init_(s) == SubSeq(s, 1, Len(s) - 1)
ProdOf(n) == FoldFunction(LAMBDA m, acc : m * acc, 1, n)
All_(n) == [k \in DOMAIN n |-> -1]
RECURSIVE RingCount(_)
RingCount(n) == IF Len(n) = 1 THEN 2 ELSE 2 * ProdOf(Init_(n)) + (n[Len(n)] - 2) * RingCount(Init_(n))
RECURSIVE RingElem(_, _)
RingElem(n, p) == LET m == Init_(n) L == n[Len(n)] IN
    IF Len(n) = 1 THEN <<p * (L - 1)>>
    ELSE LET base == ProdOf(m) ring == RingCount(m) q == p - base IN
         IF p < base THEN Append(SliceElem(m, All_(m), p, 1), 0)
         ELSE IF q < (L - 2) * ring THEN Append(RingElem(m, q % ring), 1 + q \div ring)
         ELSE Append(SliceElem(m, All_(m), q - (L - 2) * ring, 1), L - 1)
=============================================================================
