------------------------------ MODULE PackLaws ------------------------------
(* A packer for the layout of PackLayout: what it writes is what is read.  *)
EXTENDS PackLayout, TLC
CONSTANT MaxEnts
VARIABLES ready, type, mixed, ratio, xcol, cstd, modes, npts, unf
vars == <<ready, type, mixed, ratio, xcol, cstd, modes, npts, unf>>
Init == /\ type \in {"cell", "exterior_facet", "interior_facet"}
        /\ mixed \in BOOLEAN /\ (mixed => type = "exterior_facet")
        /\ ratio \in {1, 2} /\ xcol \in {1, 2} /\ cstd \in 0 .. 2
        /\ modes = <<>> /\ npts = <<>> /\ ready = FALSE
        /\ unf \in [1 .. 2 -> BOOLEAN] /\ (unf[1] \/ unf[2] => type = "cell")
Next == /\ ~ready /\ ready' = TRUE
        /\ \E k \in 0 .. MaxEnts : /\ modes' \in [1 .. k -> {"cut", "full", "empty"}]
                                   /\ npts' \in [1 .. k -> [1 .. 2 -> 0 .. 2]]
                                   /\ \A e \in 1 .. k : modes'[e] # "cut" => npts'[e] = <<0, 0>>
        /\ UNCHANGED <<type, mixed, ratio, xcol, cstd, unf>>
Spec == Init /\ [][Next]_vars

n == Len(modes)
shape == [cell |-> "triangle", type |-> type, mixed |-> mixed, ratio |-> ratio, cols |-> cstd + xcol, cstd |-> cstd,
          ents |-> modes, quads |-> <<[unf |-> unf[1]], [unf |-> unf[2]]>>]
\* the custom reals of entity e: token <<e, q, j>> for the j-th real of quadrature q
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
Token(e, q, j) == 1000000 + e * 10000 + q * 1000 + j
Quad(e, q) == <<npts[e][q]>> \o [j \in 1 .. npts[e][q] * Width(shape, q) |-> Token(e, q, j)]
Custom(e) == IF modes[e] = "cut" THEN Quad(e, 1) \o Quad(e, 2) ELSE <<>>
RECURSIVE Before(_)
Before(e) == IF e = 1 THEN 0 ELSE Before(e - 1) + Len(Custom(e - 1))
Total == IF n = 0 THEN 0 ELSE Before(n) + Len(Custom(n))
Std(e, j) == 500000 + e * 100 + j
RowLen == Sides(shape) * (cstd + xcol) * ratio
Row(e) == [j \in 1 .. RowLen |-> IF j <= NStd(shape) THEN Std(e, j) ELSE 7]
Off(e) == CASE modes[e] = "full" -> -1 [] modes[e] = "empty" -> 0 [] modes[e] = "cut" -> Rows(shape) + Before(e) - Base(shape, e)
Pad == LET w == (cstd + xcol) * ratio IN IF Total % w = 0 THEN <<>> ELSE [j \in 1 .. w - (Total % w) |-> 0]
Packed == Cat([e \in 1 .. n |-> Row(e)]) \o Cat([e \in 1 .. n |-> Custom(e)]) \o Pad
Ints == [k \in 1 .. Len(Packed) |-> IF \E e \in 1 .. n : k = Base(shape, e) + NStd(shape) + 1
                                     THEN Off(CHOOSE e \in 1 .. n : k = Base(shape, e) + NStd(shape) + 1) ELSE 2000000000]
rec == [shape EXCEPT !.ents = modes] @@ [V |-> Packed, I |-> Ints]
Cuts == {e \in 1 .. n : modes[e] = "cut"}
ReadBack == LET r == TLCEval(rec) IN
  /\ \A e \in 1 .. n : ModeOf(r, e) = modes[e] /\ \A j \in 1 .. NStd(r) : r.V[Base(r, e) + j] = Std(e, j)
  /\ \A e \in Cuts : /\ Start(r, e) >= Rows(r) /\ EndOf(r, e) <= Len(r.V)
       /\ \A q \in 1 .. 2 :
          LET m == npts[e][q] d == 2 IN
          /\ NPts(r, e, q) = m
          /\ \A i \in 1 .. m :
                /\ \A k \in 1 .. d : Points(r, e, q)[i][k] = Token(e, q, (i - 1) * d + k)
                /\ PWeights(r, e, q)[i][1] = Token(e, q, m * (Width(r, q) - 1 - (IF unf[q] THEN d ELSE 0)) + i)
                /\ unf[q] => (Normals(r, e, q)[i] = <<Token(e, q, m * (Width(r, q) - d) + (i - 1) * d + 1), Token(e, q, m * (Width(r, q) - d) + i * d)>>)
                /\ (type = "interior_facet") => (Points1(r, e, q)[i][1] = Token(e, q, m * d + (i - 1) * d + 1))
                /\ mixed => (FacetPoints(r, e, q)[i][1] = Token(e, q, m * d + i))
Disjoint == LET r == TLCEval(rec) IN \A a, b \in Cuts : a # b => EndOf(r, a) <= Start(r, b) \/ EndOf(r, b) <= Start(r, a)
=============================================================================
