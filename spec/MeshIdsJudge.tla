---------------------------- MODULE MeshIdsJudge ----------------------------
EXTENDS MeshIds, TLC, Json, IOUtils
Obs == ndJsonDeserialize(IOEnv.OBS)
VARIABLE i
Each(o, F(_)) == Len(o.res) = Len(o.ask) /\ \A k \in DOMAIN o.ask : o.res[k] = F(o.ask[k])
Conforms(o) == LET v == o.view IN
    CASE o.op = "allcells" -> o.res = [c \in 1..v.nown |-> OrigCell(v, c - 1)]
      [] o.op = "origcells" -> o.dt = "int64" /\ Each(o, LAMBDA c : OrigCell(v, c))
      [] o.op = "localcells" -> o.dt = "int32" /\ Each(o, LAMBDA x : LocalCell(v, x))
      [] o.op = "globalcells" -> o.dt = "int64" /\ Each(o, LAMBDA x : v.glob[LocalCell(v, x) + 1])
      [] o.op = "loc2glob" -> Each(o, LAMBDA x : v.glob[x + 1])
      [] o.op = "localnodes" -> o.dt = "int32" /\ Each(o, LAMBDA x : LocalNode(v, x))
      [] o.op = "orignodes" -> /\ Len(o.res) = Len(o.ask)
                               /\ \A k \in DOMAIN o.ask : OrigNodeOk(v, o.ask[k], o.res[k])
      [] o.op = "cellfacets" -> o.res = v.c2f[o.ask + 1]
      [] o.op = "merge" -> MergeOk(o.cls, o.res)
      [] o.op = "merged" -> o.res = v.ismerged
      [] o.op = "inactive" -> o.res = (Len(v.active) < v.ncells)
      [] o.op = "actives" -> IF Len(v.active) < v.ncells THEN o.res = v.active ELSE o.res = "none"
      [] o.op = "counts" -> o.res = <<v.nown, Len(v.active)>>
Init == i = 0
Next == /\ i < Len(Obs) /\ i' = i + 1
        /\ ~Conforms(Obs[i + 1]) => PrintT(<<"BAD", i + 1>>)
        /\ i' = Len(Obs) => PrintT(<<"DONE", i'>>)
Spec == Init /\ [][Next]_i
=============================================================================
