-------------------------- MODULE ReparamMeshLaws --------------------------
\* Histories of two meshes under the operations of ReparamMesh.tla.
EXTENDS ReparamMesh
CONSTANTS Dim, Nodes, Depth
VARIABLES s, n, unique
vars == <<s, n, unique>>
Unit == [k \in 1..Dim |-> 0]
Two == [k \in 1..Dim |-> IF k = 1 THEN <<0, 2, 6>> ELSE <<0, 6>>]
Ops(m) == {[op |-> "full", mesh |-> m, lo |-> Unit, hi |-> [k \in 1..Dim |-> 6], wb |-> w] : w \in BOOLEAN}
    \cup {[op |-> "grid", mesh |-> m, breaks |-> Two, cells |-> c, wb |-> TRUE] : c \in {<<0>>, <<0, 1>>, <<1, 0>>}}
    \cup {[op |-> "merge", mesh |-> m], [op |-> "unique", mesh |-> m],
          [op |-> "scale", mesh |-> m, from |-> <<Unit, [k \in 1..Dim |-> 2]>>, to |-> <<[k \in 1..Dim |-> 1], [k \in 1..Dim |-> 2 + k]>>]}
    \cup {[op |-> "permute", mesh |-> m, cell |-> c] : c \in 0..(Len(s[m + 1].cells) - 1)}
Init == s = <<Empty, Empty>> /\ n = 0 /\ unique = <<TRUE, TRUE>>
Next == /\ n < Depth
        /\ \E m \in {0, 1} : \E o \in Ops(m) :
             /\ s' = Do(s, o, Dim, Nodes)
             /\ unique' = [unique EXCEPT ![m + 1] = o.op = "unique" \/ (@ /\ o.op \in {"permute", "scale"})]
        /\ n' = n + 1
Spec == Init /\ [][Next]_vars
Size == P(Nodes, Dim)
Laws == \A i \in {1, 2} : LET m == s[i] IN
    /\ \A c \in Range(m.cells) : Len(c) = Size /\ Cardinality(Range(c)) = Size
    /\ \A w \in Range(m.wires) : Len(w) = Nodes
    \* every wire is an edge of a cell
    /\ \A w \in Range(m.wires) : \E c \in Range(m.cells) : \E e \in Edges(Dim) : LET l == EdgeLine(c, e, Nodes, Dim) IN l = w \/ l = Reverse(w)
    /\ unique[i] => m.count = Cardinality(UNION {Range(c) : c \in Range(m.cells)})
                    /\ \A a, b \in DOMAIN m.wires : a # b => ~SameLine(m.wires[a], m.wires[b])
    /\ ~unique[i] => m.count <= Size * Len(m.cells)
    /\ \A c \in Range(m.cells) : Permuted(Permuted(c, Nodes, Dim), Nodes, Dim) = c /\ Range(Permuted(c, Nodes, Dim)) = Range(c)
    /\ Merged(Merged(m)) = Merged(m)
Tables == /\ Range(VtkNodes(Nodes, Dim)) = 0..(Size - 1) /\ Len(VtkNodes(Nodes, Dim)) = Size
          /\ Cardinality(Edges(Dim)) = (CASE Dim = 1 -> 1 [] Dim = 2 -> 4 [] Dim = 3 -> 12)
          /\ \A k \in 7..8 : LET v == Stretched(k) IN \A j \in 1..k : v[j] + v[k + 1 - j] = 1048576
ASSUME Tables
=============================================================================
