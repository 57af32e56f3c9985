--------------------------- MODULE KernelMeaning ---------------------------
(* What a kernel has to add to the element tensor of one entity.           *)
(* A form is a sum, over its quadrature rules, of terms                    *)
(*   scale * weight * product of factors * test * trial                    *)
(* evaluated at the points of the entity: the static points of the rule if *)
(* the entity is full, the points of its own custom quadrature if it is    *)
(* cut, and none if it is empty.  Rules of unfitted boundaries have no     *)
(* meaning in full entities, and the constants that stand for the boundary *)
(* normal are the normals of the custom points in them.                    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Mul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
Add(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Times(k, a) == <<k * a[1], k * a[2]>>
Zero == <<0, 0>>

RECURSIVE Dot(_, _, _, _)
(* sum over m of vals[d[m]] * T[m], vals complex *)
Dot(vals, d, T, m) == IF m = 0 THEN Zero ELSE Add(Dot(vals, d, T, m - 1), Times(T[m], vals[d[m] + 1]))
RECURSIVE DotR(_, _, _, _)
DotR(vals, d, T, m) == IF m = 0 THEN 0 ELSE DotR(vals, d, T, m - 1) + T[m] * vals[d[m] + 1]

Factor(rec, rule, f, q) ==
  CASE f.k = "w" -> Dot(rec.w, f.d, f.T[q], Len(f.d))
    [] f.k = "x" -> <<DotR(rec.x, f.d, f.T[q], Len(f.d)), 0>>
    [] f.k = "g" -> <<f.v, 0>>
    [] f.k = "c" -> IF rule.unf /\ f.n >= 0 THEN <<rule.n[q][f.j + 1], 0>> ELSE rec.c[f.p + 1]

RECURSIVE Prod(_, _, _, _, _)
Prod(rec, rule, fs, q, k) == IF k = 0 THEN <<1, 0>> ELSE Mul(Prod(rec, rule, fs, q, k - 1), Factor(rec, rule, fs[k], q))

(* the scalar of one term at one point *)
Scalar(rec, rule, t, q) == Times(t.s * rule.w[q], Prod(rec, rule, t.f, q, Len(t.f)))

Pos(d, v) == CHOOSE m \in 1 .. Len(d) : d[m] = v
Arg(t, a, q, v) ==                 \* value of the argument's basis function v
  IF a \notin DOMAIN t THEN 1
  ELSE LET g == t[a] IN IF \E m \in 1 .. Len(g.d) : g.d[m] = v THEN g.T[q][Pos(g.d, v)] ELSE 0

RECURSIVE SumPts(_, _, _, _, _, _)
SumPts(rule, sc, t, i, j, q) ==
  IF q = 0 THEN Zero
  ELSE Add(SumPts(rule, sc, t, i, j, q - 1),
           LET a == Arg(t, "test", q, i) IN IF a = 0 THEN Zero ELSE Times(a * Arg(t, "trial", q, j), sc[q]))
RECURSIVE SumTerms(_, _, _, _, _)
SumTerms(rule, sc, i, j, k) ==
  IF k = 0 THEN Zero ELSE Add(SumTerms(rule, sc, i, j, k - 1), SumPts(rule, sc[k], rule.terms[k], i, j, Len(rule.w)))
RECURSIVE SumRules(_, _, _, _, _)
SumRules(rules, sc, i, j, r) ==
  IF r = 0 THEN Zero ELSE Add(SumRules(rules, sc, i, j, r - 1), SumTerms(rules[r], sc[r], i, j, Len(rules[r].terms)))

Active(rec) ==
  CASE rec.mode = "empty" -> <<>>
    [] rec.mode = "cut" -> rec.rules
    [] rec.mode = "full" -> SelectSeq(rec.rules, LAMBDA r : ~r.unf)

Abs(n) == IF n < 0 THEN -n ELSE n
Near(a, b, tol) == Abs(a[1] - b[1]) <= tol /\ Abs(a[2] - b[2]) <= tol

(* with U = 1 the arithmetic is exact; otherwise the test functions are given as multiples of 1/U *)
RECURSIVE Size(_, _, _, _)
Size(rules, sc, r, k) ==
  IF r = 0 THEN 0
  ELSE IF k = 0 THEN (IF r = 1 THEN 0 ELSE Size(rules, sc, r - 1, Len(rules[r - 1].terms)))
  ELSE LET n == Len(rules[r].w)
           RECURSIVE S(_)
           S(q) == IF q = 0 THEN 0 ELSE S(q - 1) + Abs(sc[r][k][q][1]) + Abs(sc[r][k][q][2])
       IN S(n) + Size(rules, sc, r, k - 1)

Meaning(rec) ==
  LET rules == Active(rec)
      sc == TLCEval([r \in 1 .. Len(rules) |-> [k \in 1 .. Len(rules[r].terms) |->
               [q \in 1 .. Len(rules[r].w) |-> Scalar(rec, rules[r], rules[r].terms[k], q)]]])
      size == IF rec.U = 1 THEN 0 ELSE Size(rules, sc, Len(rules), IF rules = <<>> THEN 0 ELSE Len(rules[Len(rules)].terms))
      tol == IF rec.U = 1 THEN 0 ELSE 3 + size + (IF rec.f32 THEN size * 20 ELSE 0)
  IN \A i \in 0 .. rec.R - 1 : \A j \in 0 .. rec.C - 1 :
       LET p == i * rec.C + j + 1 IN
       Near(rec.A1[p], Add(Times(rec.U, rec.A0[p]), SumRules(rules, sc, i, j, Len(rules))), tol)
=============================================================================
