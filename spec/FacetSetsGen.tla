---------------------------- MODULE FacetSetsGen ----------------------------
\* Random operation sequences of FacetSets, as scripts for the code.
EXTENDS FacetSets, Json, TLC
VARIABLES hist, said
Add(r) == hist' = Append(hist, r)
GInit == Init /\ hist = <<>> /\ said = FALSE
RandSeq(k) == [j \in 1..k |-> RandomElement(Pairs)]
GNext ==
  \/ /\ ops < MaxOps /\ UNCHANGED said
     /\ \/ \E dt \in Dtypes, k \in 0..MaxLen : /\ Room /\ \E fs \in {RandSeq(k)} : New(dt, fs) /\ Add([op |-> "new", dt |-> dt, fs |-> fs])
        \/ \E a, b \in Dom : Room /\ Len(objs[a].fs) + Len(objs[b].fs) <= 3 * MaxLen
                              /\ Concat(a, b) /\ Add([op |-> "concat", a |-> a, b |-> b])
        \/ \E a, b \in Dom, au \in BOOLEAN : Room /\ Binary(a, b, au, MeetSet(a, b), SortedOf(MeetSet(a, b)))
                              /\ Add([op |-> "meet", a |-> a, b |-> b, au |-> au])
        \/ \E a, b \in Dom, au \in BOOLEAN : Room /\ Binary(a, b, au, DiffSet(a, b), SortedOf(DiffSet(a, b)))
                              /\ Add([op |-> "diff", a |-> a, b |-> b, au |-> au])
        \/ \E a \in Dom : Unique(a) /\ Add([op |-> "unique", a |-> a])
        \/ \E a, b \in Dom : Same(a, b) /\ Look /\ Add([op |-> "find", a |-> a, b |-> b])
        \/ \E a \in Dom : Look /\ Add([op |-> "array", a |-> a])
  \/ /\ ops = MaxOps /\ ~said /\ said' = TRUE /\ UNCHANGED <<fvars, hist>>
     /\ PrintT(<<"CASE", ToJson(hist)>>)
GSpec == GInit /\ [][GNext]_<<fvars, hist, said>>
=============================================================================
