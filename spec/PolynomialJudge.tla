-------------------------- MODULE PolynomialJudge --------------------------
\* Answers of the C++ polynomial classes, judged by Polynomial.tla. o.p, o.q: operands, o.pts over o.den: points.
EXTENDS Polynomial, Json, IOUtils, TLC
Obs == ndJsonDeserialize(IOEnv.OBS)
VARIABLE i
Ps(o) == 1..Len(o.pts)
EvalOk(o) == /\ Len(o.vals) = Len(o.pts)
             /\ \A x \in Ps(o) : /\ o.vals[x] = At(o.p, o.pts[x], o.den)
                                 /\ o.grads[x] = Gradient(o.p, o.pts[x], o.den)
                                 /\ o.hess[x] = Hessian(o.p, o.pts[x], o.den)
\* every value in the box is enclosed (points of it: o.pts)
Within(v, e) == \A c \in DOMAIN v : e[c][1] <= v[c] /\ v[c] <= e[c][2]
ItvOk(o) == \A x \in Ps(o) : /\ Within(At(o.p, o.pts[x], o.den), o.v)
                             /\ LET g == Gradient(o.p, o.pts[x], o.den) IN \A k \in DOMAIN g : Within(g[k], o.g[k])
\* a box without extent gives the value up to rounding
PointItv(o) == o.point => \A c \in DOMAIN o.v : o.v[c][2] - o.v[c][1] <= 2
StoreOk(o) == /\ o.flat = o.p.coefs /\ o.tens = o.p.coefs /\ o.all = o.p.coefs
              /\ o.n = o.p.order /\ o.deg = [k \in DOMAIN o.n |-> o.n[k] - 1]
              /\ o.zero = [j \in DOMAIN o.p.coefs |-> [c \in 1..Components(o.p) |-> 0]]
              /\ (o.bezier => o.x = o.p.coefs)
              /\ o.copy = Scaled(o.p.coefs[1], 3) /\ o.kept = o.p.coefs[1]
\* the result has this order and, at the points, these values
Is(o, order, F(_)) == /\ o.order = order /\ o.count = ProdOf(order) /\ o.size = o.count /\ Len(o.vals) = Len(o.pts)
                      /\ \A x \in Ps(o) : o.vals[x] = F(o.pts[x])
SignOk(o) == LET all == {o.p.coefs[j][1] : j \in DOMAIN o.p.coefs} IN
    /\ (o.sign = 1 => \A x \in Ps(o) : At(o.p, o.pts[x], o.den)[1] > 0)
    /\ (o.sign = -1 => \A x \in Ps(o) : At(o.p, o.pts[x], o.den)[1] < 0)
    /\ ((\A c \in all : c > 0) => o.sign = 1) /\ ((\A c \in all : c < 0) => o.sign = -1)
BernOk(o) == o.vals = [j \in 1..o.n |-> Bernstein(o.n - 1, j - 1, o.x, o.den, o.der)]
Ok(o) ==
    CASE o.k = "eval" -> EvalOk(o)
      [] o.k = "itv" -> ItvOk(o) /\ PointItv(o)
      [] o.k = "store" -> StoreOk(o)
      [] o.k = "add" -> LET F(x) == SumAt(o.p, o.q, 1, x, o.den) IN Is(o, SumOrder(o.p, o.q), F)
      [] o.k = "sub" -> LET F(x) == SumAt(o.p, o.q, -1, x, o.den) IN Is(o, SumOrder(o.p, o.q), F)
      [] o.k = "mul" -> LET F(x) == ProductAt(o.p, o.q, x, o.den) IN Is(o, ProductOrder(o.p, o.q), F)
      [] o.k = "comp" -> LET F(x) == ComposeAt(o.p, o.q, x) IN Is(o, ComposeOrder(o.p, o.q), F)
      [] o.k = "raise" -> LET F(x) == Lift(o.p, o.to, x, o.den) IN Is(o, o.to, F)
      [] o.k = "negate" -> LET F(x) == Scaled(At(o.p, x, o.den), -1) IN Is(o, o.p.order, F)
      [] o.k = "bezier" -> LET F(x) == At(o.p, x, o.den) IN Is(o, o.p.order, F)
      [] o.k = "facet" -> LET F(x) == FacetAt(o.p, o.id, x, o.den) IN Is(o, FacetOrder(o.p, o.id), F)
      [] o.k = "deriv" -> LET F(x) == DerivAt(o.p, o.dir, x, o.den) IN Is(o, DerivOrder(o.p, o.dir), F)
      [] o.k = "lin" -> LET F(x) == At(Linear(o.p, o.a, o.shift), x, o.den) IN Is(o, o.p.order, F)
      [] o.k = "image" -> LET F(x) == At(Image(o.p, o.old, o.new), x, o.den) IN Is(o, o.p.order, F)
      [] o.k = "rescale" -> LET F(x) == RescaleAt(o.p, o.lo, o.hi, x) IN Is(o, o.p.order, F)
      [] o.k = "sign" -> SignOk(o)
      [] o.k = "bern" -> BernOk(o)
Init == i = 0
Next == /\ i < Len(Obs) /\ i' = i + 1
        /\ (Ok(Obs[i + 1]) \/ PrintT(<<"BAD", i + 1>>))
        /\ (i' < Len(Obs) \/ PrintT(<<"DONE", i'>>))
Spec == Init /\ [][Next]_i
=============================================================================
