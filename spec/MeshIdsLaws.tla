----------------------------- MODULE MeshIdsLaws -----------------------------
\* Life of a mesh: choose active cells, merge nodes, renumber, distribute.  In
\* every reachable mesh the maps are mutually inverse and cells are neither lost
\* nor duplicated.
EXTENDS MeshIds, TLC
CONSTANTS NCells, NNodes, Procs
VARIABLES phase, active, merge, rows
vars == <<phase, active, merge, rows>>
Inj(S, k) == {s \in [1..k -> S] : \A a, b \in 1..k : a # b => s[a] # s[b]}
Init == phase = "new" /\ active = <<>> /\ merge = <<>> /\ rows = [p \in Procs |-> <<>>]
Activate == /\ phase = "new" /\ phase' = "active" /\ UNCHANGED <<merge, rows>>
            /\ \E S \in SUBSET (0..(NCells - 1)) : S # {} /\ active' = SetToSortSeq(S, <)
Merge == /\ phase = "active" /\ phase' = "merged" /\ UNCHANGED <<active, rows>>
         /\ \E m \in [1..NNodes -> 0..(NNodes - 1)] : RangeIn(m) = 0..(Cardinality(RangeIn(m)) - 1) /\ merge' = m
\* every row ends up owned by one process, in any order
Distribute == /\ phase = "merged" /\ phase' = "done" /\ UNCHANGED <<active, merge>>
              /\ \E own \in [1..Len(active) -> Procs] : \E perm \in Inj(0..(Len(active) - 1), Len(active)) :
                    rows' = [p \in Procs |-> SelectSeq(perm, LAMBDA r : own[r + 1] = p)]
Next == Activate \/ Merge \/ Distribute
Spec == Init /\ [][Next]_vars
View(p) == [rows |-> rows[p], active |-> active, merge |-> merge, inp |-> SetToSortSeq(RangeIn(merge), <)]
Laws == phase = "done" =>
    /\ \A p \in Procs : LET v == View(p) IN
         /\ \A c \in 0..(NLocal(v) - 1) : LocalCell(v, OrigCell(v, c)) = c
         /\ \A o \in 0..(NCells - 1) : LocalCell(v, o) # -1 => OrigCell(v, LocalCell(v, o)) = o
         /\ \A o \in 0..(NNodes - 1) : OrigNodeOk(v, LocalNode(v, o), o)
    /\ \A o \in RangeIn(active) : Cardinality({p \in Procs : LocalCell(View(p), o) # -1}) = 1
    /\ \A o \in 0..(NCells - 1) : o \notin RangeIn(active) => \A p \in Procs : LocalCell(View(p), o) = -1
=============================================================================
