--------------------------- MODULE FacetMeshJudge ---------------------------
\* Judges facet sets built from meshes and their changes of numbering.
EXTENDS MeshView, TLC, Json, IOUtils
Obs == ndJsonDeserialize(IOEnv.OBS)
VARIABLE i
NoDup(s) == Cardinality(RangeOf(s)) = Len(s)
Conforms(o) ==
  LET v == o.view  r == o.res IN
    CASE o.op = "all" -> NoDup(r) /\ IF o.single THEN OneSided(v, RangeOf(r), Owned(v)) ELSE RangeOf(r) = BothSides(v, Owned(v))
      [] o.op = "exterior" -> NoDup(r) /\ RangeOf(r) = BothSides(v, Ext(v))
      [] o.op = "interior" -> NoDup(r) /\ IF o.single THEN OneSided(v, RangeOf(r), Inner(v)) ELSE RangeOf(r) = BothSides(v, Inner(v))
      [] o.op = "ids" -> NoDup(r) /\ IF o.single THEN OneSided(v, RangeOf(r), RangeOf(o.ask)) ELSE RangeOf(r) = BothSides(v, RangeOf(o.ask))
      [] o.op = "toorig" -> o.dt = "int64" /\ r = [k \in DOMAIN o.ask |-> Lex(v, o.ask[k])]
      [] o.op = "todlf" -> o.dt = "int32" /\ r = [k \in DOMAIN o.ask |-> Dlf(v, o.ask[k])]
      [] o.op = "facetids" -> r = [k \in DOMAIN o.ask |-> FacetOf(v, o.ask[k])]
Init == i = 0
Next == /\ i < Len(Obs) /\ i' = i + 1
        /\ ~Conforms(Obs[i + 1]) => PrintT(<<"BAD", i + 1>>)
        /\ i' = Len(Obs) => PrintT(<<"DONE", i'>>)
Spec == Init /\ [][Next]_i
=============================================================================
