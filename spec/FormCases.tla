----------------------------- MODULE FormCases -----------------------------
(* Skeletons of the form cases: which integrals a form has, over which     *)
(* kind of entities, with which scalars, and what the entities are like.   *)
EXTENDS Integers, Sequences, TLC, Json
C == "cell"
E == "exterior_facet"
N == "interior_facet"
Shapes == { << <<C, 1>> >>, << <<C, 2>> >>, << <<E, 1>> >>, << <<E, 2>> >>, << <<N, 1>> >>, << <<N, 2>> >>,
            << <<C, 1>>, <<E, 1>> >>, << <<C, 1>>, <<N, 1>> >>, << <<E, 1>>, <<N, 1>> >>, << <<C, 2>>, <<E, 1>>, <<N, 1>> >> }
Has(s, t) == \E i \in 1 .. Len(s) : s[i][1] = t
Statuses == { <<"cut">>, <<"full">>, <<"empty">>, <<"cut", "full">>, <<"cut", "empty">>, <<"full", "empty">>, <<"cut", "full", "empty">>,
              <<"cut", "cut", "cut", "full", "empty">>, <<"cut", "empty", "empty", "empty", "full">> }
Cells == {"triangle", "quadrilateral", "tetrahedron", "hexahedron"}
VARIABLE c
Init == c \in [cell : Cells, shape : Shapes, real : {"f32", "f64"}, cplx : BOOLEAN, mixed : BOOLEAN, unf : BOOLEAN,
               single : BOOLEAN, st : Statuses, ents : {1, 3, 5}, pts : {1, 3}]
Valid == /\ c.mixed => \A i \in 1 .. Len(c.shape) : c.shape[i][1] = E
         /\ c.unf => Has(c.shape, C)
         /\ c.single => Len(c.shape) = 1
         /\ (c.pts = 1) => (c.ents = 3)
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Emit == Valid => PrintT(<<"CASE", ToJson(c)>>)
=============================================================================
