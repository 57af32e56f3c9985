---------------------------- MODULE TPMeshJudge ----------------------------
EXTENDS TPMesh, TLC, Json, IOUtils
Obs == ndJsonDeserialize(IOEnv.OBS)
VARIABLE i
Conforms(o) ==
    CASE o.op = "conn" -> LET nodes == EN!DOLFINxNodes(Len(o.n), o.p) IN
             /\ Len(o.res) = Len(o.active)
             /\ \A k \in DOMAIN o.active : o.res[k] = ConnRow(o.n, o.p, nodes, o.active[k])
      [] o.op = "coords" -> /\ Len(o.res) = Prod(NPts(o.n, o.p))
             /\ \A k \in DOMAIN o.res : o.res[k] = [d \in Dims(o.n) |-> CoordP(o.n, o.p, o.breaks, k - 1, d)]
      [] o.op = "empty" -> o.res = <<0, EN!Pow(o.p + 1, Len(o.n)), 0, o.gdim>>
      [] o.op = "uniform" -> o.res = [d \in Dims(o.n) |-> Uniform(o.lo[d], o.h[d], o.n[d])]
      [] o.op = "tindex" -> \A k \in DOMAIN o.res : o.res[k] = TensorOf(o.n, o.view.orig[k])
      [] o.op = "bbox" -> \A k \in DOMAIN o.res : o.res[k] = BBox(o.n, o.breaks, o.view.orig[k])
      [] o.op = "facecells" -> o.res = Sorted(FaceCells(o.n, o.view, o.face))
      [] o.op = "facefacets" -> o.res = Sorted(FaceFacets(o.n, o.view, o.face))
      [] o.op = "tags" -> LET F(f) == FaceFacets(o.n, o.view, f) IN
             /\ o.dim = Len(o.n) - 1
             /\ o.res = Sorted(UNION {F(f) : f \in 0..(2 * Len(o.n) - 1)})
             /\ Len(o.values) = Len(o.res)
             /\ \A k \in DOMAIN o.res : o.values[k] \in 0..(2 * Len(o.n) - 1) /\ o.res[k] \in F(o.values[k])
      [] o.op = "facts" -> o.res = <<NPts(o.n, o.p), o.n, Prod(o.n), o.p, Len(o.n), o.gdim, o.dt>>
Init == i = 0
Next == /\ i < Len(Obs) /\ i' = i + 1
        /\ ~Conforms(Obs[i + 1]) => PrintT(<<"BAD", i + 1>>)
        /\ i' = Len(Obs) => PrintT(<<"DONE", i'>>)
Spec == Init /\ [][Next]_i
=============================================================================
