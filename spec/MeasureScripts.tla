--------------------------- MODULE MeasureScripts ---------------------------
(* all sequences of operations on a measure, up to MaxOps *)
EXTENDS Measures, TLC, Json
CONSTANT MaxOps
VARIABLES m0, ops
Starts == [dom : {1, 2}, ids : {<<-1>>, <<1>>, <<2, 1>>}, deg : {-1, 3}, other : {-1, 7}, data : {0, 1}]
Ops == {[k |-> "id", ids |-> s] : s \in {<<2>>, <<-1>>, <<1, 3>>, <<3, 2, 5>>}}
       \cup {[k |-> "plain"], [k |-> "deg", deg |-> 4], [k |-> "meta", deg |-> -1, other |-> 8], [k |-> "meta", deg |-> 5, other |-> -1], [k |-> "meta", deg |-> 5, other |-> 8]}
       \cup {[k |-> "data", data |-> 2]} \cup {[k |-> "dom", dom |-> d] : d \in {2, 3}} \cup {[k |-> "over", dom |-> 3], [k |-> "over", dom |-> 1]}
Init == m0 \in Starts /\ ops = <<>>
Next == Len(ops) < MaxOps /\ \E o \in Ops : ops' = Append(ops, o) /\ UNCHANGED m0
Spec == Init /\ [][Next]_<<m0, ops>>
Emit == PrintT(<<"CASE", ToJson([m |-> m0, ops |-> ops])>>)
(* a measure says as many integrals as it has ids, all alike but for the id *)
Sane == LET m == Run(m0, ops)  s == Integrals(m) IN Len(s) = Len(m.ids) /\ \A a, b \in DOMAIN s : [s[a] EXCEPT !.id = 0] = [s[b] EXCEPT !.id = 0]
=============================================================================
