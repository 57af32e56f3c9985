--------------------------- MODULE TabulateCases ---------------------------
EXTENDS TabulateABI, Json, IOUtils
Elems == ndJsonDeserialize(IOEnv.ELEMS)
CONSTANTS MaxNd, MaxPts
VARIABLES c
Cases == { [elem |-> i, nd |-> nd, npts |-> n, cap |-> k, handle |-> h, gd |-> g] :
             i \in 1..Len(Elems), nd \in 0..MaxNd, n \in 1..MaxPts, k \in CapKinds, h \in HandleKinds, g \in {"right", "wrong"} }
Init == c \in {x \in Cases : (x.handle # "good" => x.cap = "roomy" /\ x.nd <= 1) /\ (x.gd = "wrong" => x.cap = "roomy" /\ x.handle = "good")}
Emit == PrintT(<<"CASE", ToJson([elem |-> c.elem, nd |-> c.nd, npts |-> c.npts, cap |-> c.cap, handle |-> c.handle, gd |-> c.gd,
                 capacity |-> Capacity(Elems[c.elem], c.nd, c.npts, c.cap)])>>)
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
\* a buffer of the announced size never has negative room
Sane == Emit /\ Need(Elems[c.elem], c.nd, c.npts) > 0
=============================================================================
