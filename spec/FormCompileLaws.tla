-------------------------- MODULE FormCompileLaws --------------------------
(* The compiler specified is correct for all small forms and marks; ids    *)
(* chosen looking at the form's own ids only are not (NaiveOk is refuted). *)
EXTENDS FormCompile
VARIABLES raw, marks
Ids == {-1, 0, 2}
Forms == UNION {[1 .. n -> [t : {"cell", Ext}, id : Ids]] : n \in 1 .. 3}
MarkSets == {{}, {0}, {2}, {0, 2}, {0, 2, 3}}
SortedSeq(S) == CHOOSE s \in [1 .. Cardinality(S) -> S] : \A a, b \in DOMAIN s : a < b => s[a] < s[b]
Marks(S, base) == LET s == SortedSeq(S) IN [k \in DOMAIN s |-> [id |-> s[k], ents |-> <<base + s[k]>>]]
Init == /\ \E f \in Forms : raw = [k \in DOMAIN f |-> [t |-> f[k].t, id |-> f[k].id, tag |-> k]]
        /\ \E c, e \in MarkSets : marks = [x \in {"cell", Ext} |-> Marks(IF x = Ext THEN e ELSE c, IF x = Ext THEN 10 ELSE 20)]
Next == UNCHANGED <<raw, marks>>
Spec == Init /\ [][Next]_<<raw, marks>>
All == <<99>>
Ok == LET jit == Renumber(marks, raw)  sub == SubOf(marks, All, raw) IN Faithful(raw, jit) /\ Domains(marks, All, raw, jit, sub)
(* ids after those of the form only *)
NoMarks == [x \in {"cell", Ext} |-> <<>>]
NaiveOk == LET jit == Renumber(NoMarks, raw)  o == OverIds(raw, jit)
               sub == [marks EXCEPT ![Ext] = @ \o [k \in DOMAIN o |-> [id |-> o[k], ents |-> All]]]
           IN Domains(marks, All, raw, jit, sub)
=============================================================================
