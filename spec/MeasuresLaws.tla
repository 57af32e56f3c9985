---------------------------- MODULE MeasuresLaws ----------------------------
(* F^T n = N and, for cells in space, n lies in the plane of the cell; the *)
(* surface element: |det F| |n| squared is the squared area of the image   *)
(* of a patch orthogonal to N (Nanson's formula), in two dimensions.       *)
EXTENDS Measures
VARIABLES F, N
R == -1 .. 2
V2 == [1 .. 2 -> -1 .. 1]
Init == N \in V2 /\ (F \in [1 .. 2 -> [1 .. 2 -> R]] \/ F \in [1 .. 3 -> [1 .. 2 -> -1 .. 1]])
Next == UNCHANGED <<F, N>>
Spec == Init /\ [][Next]_<<F, N>>
Scale(k, v) == [j \in DOMAIN v |-> k * v[j]]
Pull == Den(F) # 0 => MV(Tr(F), Num(F, N)) = Scale(Den(F), N)
(* the tangent of the boundary is mapped by F; length of image^2 * |n|^2... *)
Tangent == <<-N[2], N[1]>>
Nanson == Square(F) => Dot(MV(F, Tangent), MV(F, Tangent)) = Dot(Num(F, N), Num(F, N))
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
InPlane == ~Square(F) => Dot(Num(F, N), Cross(Tr(F)[1], Tr(F)[2])) = 0
Metric == ~Square(F) => LET G == MM(Tr(F), F) IN Dot(MV(F, Tangent), MV(F, Tangent)) * Den(F) = Dot(Num(F, N), Num(F, N))
=============================================================================
