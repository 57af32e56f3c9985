------------------------ MODULE UnfittedStatusLaws ------------------------
EXTENDS UnfittedStatus, TLC
VARIABLES st, b
Init == st \in Statuses /\ b \in BOOLEAN
Next == UNCHANGED <<st, b>>
Spec == Init /\ [][Next]_<<st, b>>
Kinds == {"cut", "full", "empty"}
Count(ext) == Cardinality({k \in Kinds : Sel(ext, k, b, st)})
\* every facet of the mesh's boundary, and every one holding unfitted boundary, is in exactly one list of exterior integrals
ExteriorPartition == Count(TRUE) = IF b \/ HasUnf(st) THEN 1 ELSE 0
\* every interior facet is in exactly one list of interior integrals
InteriorPartition == Count(FALSE) = IF b THEN 0 ELSE 1
AllIsUnion == InAll(TRUE, b, st) <=> Count(TRUE) = 1
Complement == InAll(FALSE, b, st) <=> ~InAll(TRUE, b, st)
Answers == Cardinality({a \in {"full", "cut", "empty", "unf"} :
              CASE a = "full" -> IsFull(st) [] a = "cut" -> IsCut(st) [] a = "empty" -> IsEmpty(st)
                [] OTHER -> HasUnf(st) /\ ~IsCut(st)}) = 1
FullIsNotBoundary == IsFull(st) => ~HasUnf(st) /\ ~HasExt(st)
=============================================================================
