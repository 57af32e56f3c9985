---------------------------- MODULE VersionJudge ----------------------------
EXTENDS VersionGate, TLC, Json, IOUtils
Obs == ndJsonDeserialize(IOEnv.OBS)
VARIABLE i
Parts(o) == {"__version__", "__doc__", "has_FEniCSx", "has_PyVista", "quad", "mesh"} \cup
    (IF Accepted(o.world) THEN {"dolfinx", "impl", "reparam"} ELSE {}) \cup (IF o.pyvista THEN {"plot"} ELSE {})
Conforms(o) ==
    CASE o.op = "lt" -> o.res = Less(o.a, o.b)
      [] o.op = "le" -> o.res = ~Less(o.b, o.a)
      [] o.op = "range" -> o.res = Within(o.a, o.b, o.d)
      [] o.op = "gate" -> o.res = Accepted(o.world)
      [] o.op = "petsc" -> o.res = o.have
      [] o.op = "package" -> /\ o.has = Accepted(o.world) /\ {o.parts[k] : k \in DOMAIN o.parts} = Parts(o)
                             /\ \A k \in DOMAIN o.tried : o.tried[k].ok = (o.tried[k].free \/ Accepted(o.world))
                             /\ Accepted(o.world) => o.solvers = o.petsc
      [] o.op = "patch" -> o.res = (IF NeedsPatch(o.dolfinx) THEN o.want ELSE o.upstream)
Init == i = 0
Next == /\ i < Len(Obs) /\ i' = i + 1
        /\ ~Conforms(Obs[i + 1]) => PrintT(<<"BAD", i + 1>>)
        /\ i' = Len(Obs) => PrintT(<<"DONE", i'>>)
Spec == Init /\ [][Next]_i
=============================================================================
