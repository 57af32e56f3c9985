----------------------------- MODULE FacetSets -----------------------------
\* MeshFacets objects: finite sequences of (cell, local facet) pairs of one cell
\* type, combined as sets.  Objects are never changed by operations on others.
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANTS Cells, Faces, Dtypes, MaxObjs, MaxLen, MaxOps
VARIABLES objs,     \* sequence of [dt, fs]
          ops
fvars == <<objs, ops>>
Pairs == Cells \X Faces
Dom == DOMAIN objs
SetOf(s) == {s[k] : k \in DOMAIN s}
NoDup(s) == Cardinality(SetOf(s)) = Len(s)
Less(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
SortedOf(S) == SetToSortSeq(S, Less)

Init == objs = <<>> /\ ops = 0
Tick == ops' = ops + 1
Room == Len(objs) < MaxObjs
New(dt, fs) == Tick /\ objs' = Append(objs, [dt |-> dt, fs |-> fs])
Same(a, b) == objs[a].dt = objs[b].dt
\* the answers allowed: any arrangement without repetition of the right set
Arrangement(s, S) == NoDup(s) /\ SetOf(s) = S
Concat(a, b) == Same(a, b) /\ New(objs[a].dt, objs[a].fs \o objs[b].fs)
Binary(a, b, au, S, s) == /\ Same(a, b) /\ (au => NoDup(objs[a].fs) /\ NoDup(objs[b].fs))
                          /\ Arrangement(s, S) /\ New(objs[a].dt, s)
MeetSet(a, b) == SetOf(objs[a].fs) \cap SetOf(objs[b].fs)
DiffSet(a, b) == SetOf(objs[a].fs) \ SetOf(objs[b].fs)
UniqueTo(a, s) == Tick /\ objs' = [objs EXCEPT ![a].fs = s]
Unique(a) == UniqueTo(a, SortedOf(SetOf(objs[a].fs)))
Look == Tick /\ UNCHANGED objs
FindAnswer(a, b, ans) == Len(ans) = Len(objs[b].fs)
                         /\ \A k \in DOMAIN ans : /\ ans[k] \in 0..(Len(objs[a].fs) - 1)
                                                  /\ objs[a].fs[ans[k] + 1] = objs[b].fs[k]
Flattened(fs) == [k \in 1..(2 * Len(fs)) |-> fs[(k + 1) \div 2][IF k % 2 = 1 THEN 1 ELSE 2]]

Next == /\ ops < MaxOps
        /\ \/ \E dt \in Dtypes, fs \in UNION {[1..k -> Pairs] : k \in 0..MaxLen} : Room /\ New(dt, fs)
           \/ \E a, b \in Dom : Room /\ Len(objs[a].fs) + Len(objs[b].fs) <= 2 * MaxLen /\ Concat(a, b)
           \/ \E a, b \in Dom, au \in BOOLEAN : Room /\ Binary(a, b, au, MeetSet(a, b), SortedOf(MeetSet(a, b)))
           \/ \E a, b \in Dom, au \in BOOLEAN : Room /\ Binary(a, b, au, DiffSet(a, b), SortedOf(DiffSet(a, b)))
           \/ \E a \in Dom : Unique(a)
Spec == Init /\ [][Next]_fvars

\* laws of the algebra, for all pairs of objects of a type
Laws == \A a, b \in Dom : Same(a, b) =>
    LET A == SetOf(objs[a].fs)  B == SetOf(objs[b].fs) IN
      /\ MeetSet(a, b) = MeetSet(b, a)
      /\ DiffSet(a, b) \cup MeetSet(a, b) = A
      /\ DiffSet(a, b) \cap B = {}
      /\ SetOf(objs[a].fs \o objs[b].fs) = DiffSet(a, b) \cup MeetSet(a, b) \cup DiffSet(b, a)
      /\ Arrangement(SortedOf(A), A)
=============================================================================
