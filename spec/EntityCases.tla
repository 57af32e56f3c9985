---------------------------- MODULE EntityCases ----------------------------
\* Enumerates the questions put to qugar.mesh.utils and, on the way, checks that
\* the specified numberings are numberings (permutations, mutually inverse).
EXTENDS EntityNumbering, TLC, Json
CONSTANTS MaxP1, MaxP2, MaxP3
VARIABLE c
MaxP(dim) == IF dim = 1 THEN MaxP1 ELSE IF dim = 2 THEN MaxP2 ELSE MaxP3
Questions == UNION {[name : NodeNames, dim : {d}, p : 1..MaxP(d)] : d \in 1..3} \cup [name : FaceNames, dim : 1..3, p : {1}]
Init == c \in Questions
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Numbering == LET t == Expected(c.name, c.dim, c.p) IN
    /\ IsPerm(t)
    /\ c.name \in NodeNames => Len(t) = Pow(c.p + 1, c.dim)
    /\ PrintT(<<"CASE", ToJson(c @@ [ref |-> t])>>)
=============================================================================
