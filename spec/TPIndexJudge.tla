---------------------------- MODULE TPIndexJudge ----------------------------
\* Judges the answers of qugar.mesh.TensorProdIndex.
EXTENDS TensorIndex, TLC, Json, IOUtils
EN == INSTANCE EntityNumbering
BI == INSTANCE BigIndex
Obs == ndJsonDeserialize(IOEnv.OBS)
VARIABLE i
FaceId(o) == IF o.lex THEN o.id ELSE EN!FaceTable(Len(o.n))[o.id + 1]
EdgeId(o) == IF o.lex THEN o.id ELSE EN!EdgeTable(Len(o.n))[o.id + 1]
Want(o) ==
    CASE o.op = "corners" -> Sorted(Corners(o.n))
      [] o.op = "internal" -> Sorted(Internal(o.n))
      [] o.op = "faces" -> Sorted(Boundary(o.n))
      [] o.op = "edges" -> Sorted(Boundary(o.n))          \* 1D, 2D
      [] o.op = "corner" -> <<Corner(o.n, o.id)>>
      [] o.op = "face" -> Sorted(Face(o.n, FaceId(o)))
      [] o.op = "edge" -> Sorted(OnEntity(o.n, EN!LexEdge(Len(o.n), EdgeId(o))))
      [] o.op = "flat" -> [k \in DOMAIN o.ask |-> FlatOf(o.n, o.ask[k])]
      [] o.op = "tensor" -> [k \in DOMAIN o.ask |-> TensorOf(o.n, o.ask[k])]
\* answers of large spaces: their length, and the ids (in digits) found at some positions
Fix(o, e) == [k \in DOMAIN o.n |-> IF e[k] = 2 THEN -1 ELSE e[k] * (o.n[k] - 1)]
SliceOk(o, fix) == /\ o.len = BI!SliceCount(o.n, fix)
                   /\ \A k \in DOMAIN o.at : o.ids[k] = BI!BigFlat(o.n, BI!SliceElem(o.n, fix, o.at[k], 1))
BigOk(o) ==
    CASE o.op = "corners" -> /\ o.len = 2 ^ Len(o.n) /\ Len(o.ids) = o.len
                             /\ \A k \in DOMAIN o.at : o.ids[k] = BI!BigFlat(o.n, [j \in DOMAIN o.n |-> BitOf(o.at[k], j) * (o.n[j] - 1)])
      [] o.op = "corner" -> o.len = 1 /\ o.ids[1] = BI!BigFlat(o.n, [j \in DOMAIN o.n |-> BitOf(o.id, j) * (o.n[j] - 1)])
      [] o.op = "faces" -> /\ o.len = BI!RingCount(o.n)
                           /\ \A k \in DOMAIN o.at : o.ids[k] = BI!BigFlat(o.n, BI!RingElem(o.n, o.at[k]))
      [] o.op = "face" -> SliceOk(o, Fix(o, EN!LexFace(Len(o.n), FaceId(o))))
      [] o.op = "edge" -> SliceOk(o, Fix(o, EN!LexEdge(Len(o.n), EdgeId(o))))
      [] o.op = "flat" -> o.ids = [k \in DOMAIN o.ask |-> BI!BigFlat(o.n, o.ask[k])]
Ok(o) == IF "at" \in DOMAIN o THEN BigOk(o) ELSE o.res = Want(o)
Init == i = 0
Next == /\ i < Len(Obs) /\ i' = i + 1
        /\ (~Ok(Obs[i + 1])) => PrintT(<<"BAD", i + 1>>)
        /\ i' = Len(Obs) => PrintT(<<"DONE", i'>>)
Spec == Init /\ [][Next]_i
=============================================================================
