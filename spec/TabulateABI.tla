---------------------------- MODULE TabulateABI ----------------------------
(* What one call of the shim's C tabulation interface has to answer.        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
RECURSIVE Binom(_, _)
Binom(n, k) == IF k = 0 \/ k = n THEN 1 ELSE Binom(n - 1, k - 1) + Binom(n - 1, k)

TDim(cell) == CASE cell = 1 -> 1 [] cell \in {2, 4} -> 2 [] OTHER -> 3
\* number of basis functions of a Lagrange element of degree p
LagrangeDim(cell, p) ==
  CASE cell = 1 -> p + 1
    [] cell = 2 -> ((p + 1) * (p + 2)) \div 2
    [] cell = 3 -> ((p + 1) * (p + 2) * (p + 3)) \div 6
    [] cell = 4 -> (p + 1) * (p + 1)
    [] cell = 5 -> (p + 1) * (p + 1) * (p + 1)
    [] OTHER -> 0
NDofs(e) == IF e.family = 1 THEN LagrangeDim(e.cell, e.degree) ELSE e.dim
VSize(e) == IF e.family \in {2, 3} THEN TDim(e.cell) ELSE 1

Shape(e, nd, npts) == << Binom(nd + TDim(e.cell), nd), npts, NDofs(e), VSize(e) >>
Need(e, nd, npts) == LET s == Shape(e, nd, npts) IN s[1] * s[2] * s[3] * s[4]

CapKinds == {"zero", "short", "exact", "roomy"}
HandleKinds == {"good", "negative", "end", "far"}
Capacity(e, nd, npts, k) == CASE k = "zero" -> 0
                              [] k = "short" -> Need(e, nd, npts) - 1
                              [] k = "exact" -> Need(e, nd, npts)
                              [] k = "roomy" -> Need(e, nd, npts) + 13

\* r: [handle, cap, ..] is a call; answers tstat, sstat, shape, match, extent
Conforms(r) ==
  LET good == r.handle = "good" /\ r.gdim = TDim(r.elem.cell)
      need == Need(r.elem, r.nd, r.npts) IN
  /\ ~r.crash
  /\ IF r.handle = "good"
     THEN r.sstat = 0 /\ r.shape = Shape(r.elem, r.nd, r.npts)
     ELSE r.sstat < 0 /\ r.shape = <<-77, -77, -77, -77>>
  /\ IF good /\ r.capacity >= need
     THEN r.tstat = 0 /\ r.match /\ r.beyond = 0
     ELSE r.tstat < 0 /\ r.beyond = 0 /\ (r.gdim = TDim(r.elem.cell) => r.touched = 0)
=============================================================================
