------------------------------ MODULE QuadRule ------------------------------
\* Quadrature rules of the unit interval and their tensor products, in fixed-point arithmetic: <<a, b, c>> stands for
\* a 10^-4 + b 10^-8 + c 10^-12 with b, c in 0..9999 and a any integer.
EXTENDS TensorIndex, TLC
B == 10000
Norm(a, b, c) == LET b2 == b + (c \div B) IN <<a + (b2 \div B), b2 % B, c % B>>
Whole(n) == <<n * B, 0, 0>>
Add(x, y) == Norm(x[1] + y[1], x[2] + y[2], x[3] + y[3])
Sub(x, y) == Norm(x[1] - y[1], x[2] - y[2], x[3] - y[3])
Times(m, x) == Norm(m * x[1], m * x[2], m * x[3])
Over(x, m) == LET r == ((x[1] % m) * B) + x[2] s == ((r % m) * B) + x[3] IN <<x[1] \div m, r \div m, s \div m>>
Mul(x, y) == Norm(0, x[1] * y[1], x[1] * y[2] + x[2] * y[1] + ((x[1] * y[3] + x[2] * y[2] + x[3] * y[1]) \div B))
\* |x| <= t 10^-12
Small(x, t) == x[1] \in {-1, 0} /\ LET v == x[1] * 100000000 + x[2] * B + x[3] IN -t <= v /\ v <= t
Close(x, y, t) == Small(Sub(x, y), t)
Positive(x) == x[1] >= 0 /\ x # <<0, 0, 0>>
Less(x, y) == Positive(Sub(y, x))
Sum(s) == FoldLeft(Add, <<0, 0, 0>>, s)

\* -- rules: x[i], w[i]
Sane(x, w) ==
    /\ Len(w) = Len(x)
    /\ \A i \in DOMAIN x : ~Less(x[i], Whole(0)) /\ ~Less(Whole(1), x[i]) /\ ~Less(w[i], Whole(0))
    /\ \A i \in DOMAIN x : i + 1 \in DOMAIN x => ~Less(x[i + 1], x[i])
    /\ Close(Sum(w), Whole(1), 1000)
    /\ \A i \in DOMAIN x : LET j == Len(x) + 1 - i IN Close(Add(x[i], x[j]), Whole(1), 3) /\ Close(w[i], w[j], 3)
\* the rule's values for the Legendre polynomials P_k, P_(k+1), ..: all but P_0 integrate to zero over the interval
Dot(w, p) == Sum([i \in DOMAIN w |-> Mul(w[i], p[i])])
RECURSIVE Vanish(_, _, _, _, _, _, _)
\* q, p: the values of P_(k-1), P_k at the points t
Vanish(t, w, q, p, k, last, tol) ==
    /\ Small(Dot(w, p), tol)
    /\ k < last => LET r == TLCEval([i \in DOMAIN t |-> Over(Sub(Times(2 * k + 1, Mul(t[i], p[i])), Times(k, q[i])), k + 1)]) IN
                   Vanish(t, w, p, r, k + 1, last, tol)
Centred(x) == TLCEval([i \in DOMAIN x |-> Sub(Times(2, x[i]), Whole(1))])
ExactTo(x, w, degree, tol) == Vanish(Centred(x), w, [i \in DOMAIN x |-> Whole(1)], Centred(x), 1, degree, tol)
\* Gauss rules are the rules of n points that are exact up to degree 2n - 1
IsGauss(x, w, n) == Len(x) = n /\ Sane(x, w) /\ (\A i \in DOMAIN w : Positive(w[i])) /\ ExactTo(x, w, 2 * n - 1, 1000)
\* tanh-sinh rules converge for all functions, polynomials of low degree among them
TanhSinhError(n) == IF n >= 32 THEN 1000 ELSE IF n >= 27 THEN 2000 ELSE IF n >= 23 THEN 20000
                    ELSE IF n >= 18 THEN 2000000 ELSE IF n >= 14 THEN 60000000 ELSE 1000
IsTanhSinh(x, w, n) == Len(x) = n /\ Sane(x, w) /\ ExactTo(x, w, IF n >= 14 THEN 4 ELSE 1, TanhSinhError(n))

\* -- products in a box: point i has the coordinates of the rules' points t = TensorOf(n, i), weights multiply
\* X, W: rule of direction k;  lo, len: the box in quarters
BoxPoint(X, lo, len, t) == [k \in DOMAIN t |-> Over(Add(Whole(lo[k]), Times(len[k], X[k][t[k] + 1])), 4)]
BoxWeight(W, len, t) == FoldLeft(Mul, Whole(1), [k \in DOMAIN t |-> Over(Times(len[k], W[k][t[k] + 1]), 4)])
=============================================================================
