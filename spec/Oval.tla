------------------------------- MODULE Oval -------------------------------
\* Ellipsoids sum_j (k[j] (x[j] - c[j]))^2 < r^2 within the unit box; lengths in 1/64, contents in 1/10000 of the box.
\* What is reparameterized is the ellipsoid (s = 1) or what is left of the box (s = -1), or its boundary.
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt
LOCAL Sq(x) == x * x
LOCAL Abs(x) == IF x < 0 THEN -x ELSE x
LOCAL SumOver(D, f(_)) == MapThenSumSet(f, D)
LOCAL Times(v) == FoldLeft(LAMBDA r, x : r * x, 1, v)
LOCAL Larger(a, b) == IF a < b THEN b ELSE a
\* ----- content: pi r^2 / (k1 k2), and 4/3 pi r^3 / (k1 k2 k3)
Content(k, r) == IF Len(k) = 2 THEN (31416 * Sq(r)) \div (4096 * Times(k))
                 ELSE (41888 * ((r * Sq(r)) \div 64)) \div (4096 * Times(k))
\* ----- how boxes [lo, hi] lie: squares of the least and of the largest distance to the centre, scaled by k
Far(k, c, lo, hi) == SumOver(DOMAIN k, LAMBDA j : Sq(k[j] * Larger(Abs(lo[j] - c[j]), Abs(hi[j] - c[j]))))
Near(k, c, lo, hi) == SumOver(DOMAIN k, LAMBDA j : Sq(k[j] * (IF c[j] < lo[j] THEN lo[j] - c[j] ELSE IF hi[j] < c[j] THEN c[j] - hi[j] ELSE 0)))
Inside(k, c, r, lo, hi) == Far(k, c, lo, hi) < Sq(r)
Outside(k, c, r, lo, hi) == Near(k, c, lo, hi) > Sq(r)
\* v, in 1/10000, is the content of the box
Box(v, lo, hi) == LET u == IF Len(lo) = 2 THEN 256 ELSE 16384 IN Abs(v * u - 625 * Times([j \in DOMAIN lo |-> hi[j] - lo[j]])) <= u
\* ----- what cells with n nodes per direction may be off, in percent: the less, the more nodes they have
Percent(d, n) == IF d = 2 THEN (CASE n = 3 -> 18 [] n = 4 -> 12 [] n = 5 -> 7 [] n = 6 -> 5 [] n = 8 -> 2)
                 ELSE (CASE n = 4 -> 14 [] n = 5 -> 7)
Close(d, n, v, exact) == 100 * Abs(v - exact) <= Percent(d, n) * Abs(exact) + 1000
=============================================================================
