-------------------------- MODULE FormCompileCases --------------------------
(* forms to compile: subdomain ids of their integrals, kinds of marks *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLE c
SeqsTo(S, n) == UNION {[1 .. k -> S] : k \in 0 .. n}
Init == c \in [ext : SeqsTo({-1, 0, 2, 5}, 3), cell : {<<>>, <<-1>>, <<1>>, <<-1, 1>>, <<3, 1>>}, inter : {<<>>, <<-1>>, <<2, 0>>},
               edata : {"none", "tags", "list"}, cdata : {"none", "tags", "list"}]
Valid == /\ Len(c.ext) + Len(c.cell) + Len(c.inter) > 0
         /\ (c.cell = <<>>) => c.cdata = "none"
         /\ (c.ext = <<>>) => c.edata = "none"
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Emit == Valid => PrintT(<<"CASE", ToJson(c)>>)
=============================================================================
