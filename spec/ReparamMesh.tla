---------------------------- MODULE ReparamMesh ----------------------------
\* Meshes of reparameterised domains: cells are grids of nodes (lexicographic, first direction fastest), wires are
\* lines of nodes. Boxes have integer corners; nodes are in units of 1/65536 of these.
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Functions
P(b, e) == FoldLeft(LAMBDA r, j : r * b, 1, [j \in 1..e |-> j])
One == 65536
Magnitude(x) == IF x < 0 THEN -x ELSE x
Near(p, q) == \A k \in DOMAIN p : Magnitude(p[k] - q[k]) <= 16
NearLine(v, w) == Len(v) = Len(w) /\ \A j \in DOMAIN v : Near(v[j], w[j])
\* wires have no direction
SameLine(v, w) == NearLine(v, w) \/ NearLine(v, Reverse(w))
\* Chebyshev nodes, stretched to reach the ends (units of 2^-20), for 7 and 8 nodes
Stretched(n) == IF n = 7 THEN <<0, 103842, 290958, 524288, 757618, 944734, 1048576>>
                ELSE <<0, 79818, 227303, 420001, 628575, 821273, 968758, 1048576>>
\* the j-th of n nodes in [lo, lo + len]
Place(lo, len, j, n) ==
    IF n >= 7 THEN lo * One + (len * Stretched(n)[j + 1]) \div 16
    ELSE (2 * One * (lo * (n - 1) + len * j) + (n - 1)) \div (2 * (n - 1))
Digit(p, k, n) == (p \div P(n, k - 1)) % n
CellNodes(lo, hi, n) ==
    [p \in 1..P(n, Len(lo)) |-> [k \in 1..Len(lo) |-> Place(lo[k], hi[k] - lo[k], Digit(p - 1, k, n), n)]]
\* the edges of a cell: constant directions with their sides
Edges(d) == {e \in [1..d -> {0, 1, 2}] : Cardinality({k \in 1..d : e[k] = 2}) = 1}
EdgeNode(cell, e, j, n, d) ==
    cell[1 + FoldLeft(LAMBDA r, k : r + P(n, k - 1) * (IF e[k] = 2 THEN j ELSE e[k] * (n - 1)), 0, [k \in 1..d |-> k])]
EdgeLine(cell, e, n, d) == [j \in 1..n |-> EdgeNode(cell, e, j - 1, n, d)]
CellWires(cell, n, d) == LET E == SetToSeq(Edges(d)) IN [i \in 1..Len(E) |-> EdgeLine(cell, E[i], n, d)]

Empty == [cells |-> <<>>, wires |-> <<>>, count |-> 0]
AddCell(m, lo, hi, wb, n) == LET c == CellNodes(lo, hi, n) IN
    [cells |-> Append(m.cells, c), wires |-> m.wires \o (IF wb THEN CellWires(c, n, Len(lo)) ELSE <<>>), count |-> m.count + Len(c)]
\* cell id in a grid of breaks
GridIndex(breaks, id, k) == (id \div FoldLeft(LAMBDA r, j : r * (Len(breaks[j]) - 1), 1, [j \in 1..(k - 1) |-> j])) % (Len(breaks[k]) - 1)
GridLow(breaks, id) == [k \in DOMAIN breaks |-> breaks[k][GridIndex(breaks, id, k) + 1]]
GridHigh(breaks, id) == [k \in DOMAIN breaks |-> breaks[k][GridIndex(breaks, id, k) + 2]]
AddCells(m, breaks, ids, wb, n) == FoldLeft(LAMBDA r, id : AddCell(r, GridLow(breaks, id), GridHigh(breaks, id), wb, n), m, ids)
Joined(m, o) == [cells |-> m.cells \o o.cells, wires |-> m.wires \o o.wires, count |-> m.count + o.count]
Merged(m) == [m EXCEPT !.count = Cardinality(UNION {Range(c) : c \in Range(m.cells)}),
                       !.wires = LET W == Range(m.wires) IN SetToSeq({w \in W : Reverse(w) \notin W \/ w = Reverse(w)
                                    \/ w = CHOOSE x \in {w, Reverse(w)} : TRUE})]
\* the first two directions of a cell swapped (the only one reversed in one dimension)
Permuted(cell, n, d) == [p \in DOMAIN cell |-> LET q == p - 1 IN
    IF d = 1 THEN cell[n - q] ELSE cell[1 + (q - Digit(q, 1, n) - n * Digit(q, 2, n)) + Digit(q, 2, n) + n * Digit(q, 1, n)]]
\* from box (a, b) to box (c, d)
Rescaled(x, a, b, c, d) == c * One + ((x - a * One) \div (b - a)) * (d - c) + (((x - a * One) % (b - a)) * (d - c)) \div (b - a)
ScaledPoint(p, o) == [k \in DOMAIN p |-> Rescaled(p[k], o.from[1][k], o.from[2][k], o.to[1][k], o.to[2][k])]
Scaled(m, o) == [m EXCEPT !.cells = [i \in DOMAIN m.cells |-> [p \in DOMAIN m.cells[i] |-> ScaledPoint(m.cells[i][p], o)]],
                          !.wires = [i \in DOMAIN m.wires |-> [p \in DOMAIN m.wires[i] |-> ScaledPoint(m.wires[i][p], o)]]]
\* s: two meshes; d: dimension; n: nodes per direction
Do(s, o, d, n) ==
    LET i == o.mesh + 1 m == s[i] IN
    [s EXCEPT ![i] = CASE o.op = "full" -> AddCell(m, o.lo, o.hi, o.wb, n)
        [] o.op = "grid" -> AddCells(m, o.breaks, o.cells, o.wb, n)
        [] o.op = "merge" -> Joined(m, s[3 - i])
        [] o.op = "unique" -> Merged(m)
        [] o.op = "permute" -> [m EXCEPT !.cells[o.cell + 1] = Permuted(@, n, d)]
        [] o.op = "scale" -> Scaled(m, o)]
Result(ops, d, n) == FoldLeft(LAMBDA s, o : Do(s, o, d, n), <<Empty, Empty>>, ops)[1]
\* nodes of VTK's Lagrange cells (files of version 0.1): vertices, edges, faces and inside, as sides (0, 1) and free directions (2)
VtkParts(d) ==
    CASE d = 1 -> <<<<0>>, <<1>>, <<2>>>>
      [] d = 2 -> <<<<0, 0>>, <<1, 0>>, <<1, 1>>, <<0, 1>>, <<2, 0>>, <<1, 2>>, <<2, 1>>, <<0, 2>>, <<2, 2>>>>
      [] d = 3 -> <<<<0, 0, 0>>, <<1, 0, 0>>, <<1, 1, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<1, 0, 1>>, <<1, 1, 1>>, <<0, 1, 1>>,
                    <<2, 0, 0>>, <<1, 2, 0>>, <<2, 1, 0>>, <<0, 2, 0>>, <<2, 0, 1>>, <<1, 2, 1>>, <<2, 1, 1>>, <<0, 2, 1>>,
                    <<0, 0, 2>>, <<1, 0, 2>>, <<0, 1, 2>>, <<1, 1, 2>>,
                    <<0, 2, 2>>, <<1, 2, 2>>, <<2, 0, 2>>, <<2, 1, 2>>, <<2, 2, 0>>, <<2, 2, 1>>, <<2, 2, 2>>>>
PartNodes(part, n, d) ==
    LET free == SelectSeq([k \in 1..d |-> k], LAMBDA k : part[k] = 2) f == Len(free)
        digit(q, k) == IF part[k] = 2 THEN 1 + Digit(q, CHOOSE i \in 1..f : free[i] = k, n - 2) ELSE part[k] * (n - 1)
    IN [q \in 1..P(n - 2, f) |-> FoldLeft(LAMBDA r, k : r + P(n, k - 1) * digit(q - 1, k), 0, [k \in 1..d |-> k])]
VtkNodes(n, d) == FoldLeft(LAMBDA r, part : r \o PartNodes(part, n, d), <<>>, VtkParts(d))
VtkType(n, d) == IF n = 2 THEN <<3, 9, 12>>[d] ELSE <<68, 70, 72>>[d]
=============================================================================
