------------------------------ MODULE Measures ------------------------------
(* Measures over unfitted boundaries: what they keep when they are called  *)
(* or rebuilt, and the integrals an integrand times a measure stands for.  *)
(* A measure is [dom, ids, deg, other, data]: mesh, subdomain ids (-1: the *)
(* whole mesh), requested degree and another entry of the metadata (-1: no *)
(* such entry), and subdomain data (0: none).                              *)
EXTENDS Integers, Sequences
Step(m, op) ==
    CASE op.k = "id" -> [m EXCEPT !.ids = op.ids]
      [] op.k = "plain" -> [m EXCEPT !.ids = <<-1>>]
      [] op.k = "deg" -> [m EXCEPT !.deg = op.deg, !.other = -1]
      [] op.k = "meta" -> [m EXCEPT !.deg = op.deg, !.other = op.other]
      [] op.k = "data" -> [m EXCEPT !.data = op.data]
      [] op.k = "dom" -> [m EXCEPT !.dom = op.dom]
      [] op.k = "over" -> [m EXCEPT !.dom = op.dom, !.ids = <<-1>>]          \* called with a mesh
RECURSIVE Run(_, _)
Run(m, ops) == IF ops = <<>> THEN m ELSE Run(Step(m, Head(ops)), Tail(ops))
Integrals(m) == [k \in DOMAIN m.ids |-> [dom |-> m.dom, id |-> m.ids[k], deg |-> m.deg, other |-> m.other, data |-> m.data]]
(* ------------------------------------------------------------- geometry *)
RECURSIVE Sum(_, _, _)
Sum(lo, hi, f) == IF lo > hi THEN 0 ELSE f[lo] + Sum(lo + 1, hi, f)
Dot(a, b) == Sum(1, Len(a), [k \in DOMAIN a |-> a[k] * b[k]])
MV(A, v) == [r \in DOMAIN A |-> Dot(A[r], v)]
Tr(A) == [c \in DOMAIN A[1] |-> [r \in DOMAIN A |-> A[r][c]]]
MM(A, B) == LET T == Tr(B) IN [r \in DOMAIN A |-> [c \in DOMAIN T |-> Dot(A[r], T[c])]]
Det2(A) == A[1][1] * A[2][2] - A[1][2] * A[2][1]
Others(n, r) == IF n = 2 THEN <<3 - r>> ELSE CASE r = 1 -> <<2, 3>> [] r = 2 -> <<1, 3>> [] r = 3 -> <<1, 2>>
Minor(A, r, c) == LET R == Others(Len(A), r)  C == Others(Len(A), c) IN
    IF Len(A) = 2 THEN A[R[1]][C[1]] ELSE A[R[1]][C[1]] * A[R[2]][C[2]] - A[R[1]][C[2]] * A[R[2]][C[1]]
Cof(A) == [r \in DOMAIN A |-> [c \in DOMAIN A |-> (IF (r + c) % 2 = 0 THEN 1 ELSE -1) * Minor(A, r, c)]]
Det(A) == Dot(A[1], Cof(A)[1])
(* the normal N of the reference cell seen in space is Num / Den: F^-T N,  *)
(* or F (F^T F)^-1 N for cells in a space of higher dimension              *)
Square(F) == Len(F) = Len(F[1])
Num(F, N) == IF Square(F) THEN MV(Cof(F), N) ELSE MV(F, MV(Cof(MM(Tr(F), F)), N))
Den(F) == IF Square(F) THEN Det(F) ELSE Det(MM(Tr(F), F))
=============================================================================
