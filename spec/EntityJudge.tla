---------------------------- MODULE EntityJudge ----------------------------
EXTENDS EntityNumbering, TLC, Json, IOUtils
Obs == ndJsonDeserialize(IOEnv.OBS)
VARIABLE i
InversePerms(s, t) == IsPerm(s) /\ IsPerm(t) /\ Len(s) = Len(t) /\ \A k \in DOMAIN s : t[s[k] + 1] = k - 1
Conforms(o) ==
    CASE o.kind = "table" -> o.dtype = "int32" /\ o.res = Expected(o.name, o.dim, o.p)
      [] o.kind = "vtkfaces" -> /\ Len(o.there) = 2 * o.dim /\ InversePerms(o.there, o.back)
                                /\ o.dim = 1 => o.there = <<0, 1>>
                                /\ o.dim = 2 => o.there = VTKFaces2
Init == i = 0
Next == /\ i < Len(Obs) /\ i' = i + 1
        /\ ~Conforms(Obs[i + 1]) => PrintT(<<"BAD", i + 1>>)
        /\ i' = Len(Obs) => PrintT(<<"DONE", i'>>)
Spec == Init /\ [][Next]_i
=============================================================================
