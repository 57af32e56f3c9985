--------------------------- MODULE FacetSetsTrace ---------------------------
\* Accepts recordings of real MeshFacets objects: after every operation the
\* recording lists all of them, so changes to operands are seen.
EXTENDS FacetSets, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.OBS)
VARIABLES tr, l
Ev == Traces[tr][l]
TInit == Init /\ tr \in 1..Len(Traces) /\ l = 1
LastFs(e) == e.objs[Len(e.objs)].fs
Match(e) ==
  \/ e.op = "new" /\ New(e.dt, e.fs)
  \/ e.op = "concat" /\ Concat(e.a, e.b)
  \/ e.op = "meet" /\ Binary(e.a, e.b, e.au, MeetSet(e.a, e.b), LastFs(e))
  \/ e.op = "diff" /\ Binary(e.a, e.b, e.au, DiffSet(e.a, e.b), LastFs(e))
  \/ e.op = "unique" /\ Arrangement(e.objs[e.a].fs, SetOf(objs[e.a].fs)) /\ UniqueTo(e.a, e.objs[e.a].fs)
  \/ /\ e.op = "find" /\ Look
     /\ IF SetOf(objs[e.b].fs) \subseteq SetOf(objs[e.a].fs) THEN e.ok /\ FindAnswer(e.a, e.b, e.ans) ELSE ~e.ok
  \/ e.op = "array" /\ Look /\ e.ans = Flattened(objs[e.a].fs) /\ e.adt = objs[e.a].dt
TNext == /\ l <= Len(Traces[tr]) /\ Match(Ev) /\ objs' = [k \in DOMAIN Ev.objs |-> [dt |-> Ev.objs[k].dt, fs |-> Ev.objs[k].fs]]
         /\ \A k \in DOMAIN Ev.objs : Ev.objs[k].size = Len(Ev.objs[k].fs) /\ Ev.objs[k].empty = (Len(Ev.objs[k].fs) = 0)
                                      /\ Ev.objs[k].fdt = "int32" /\ Ev.objs[k].items = Ev.objs[k].fs
         /\ l' = l + 1 /\ UNCHANGED tr
TSpec == TInit /\ [][TNext]_<<fvars, tr, l>>
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Progress == IF l > TLCGet(tr) THEN TLCSet(tr, l) ELSE TRUE
Report == /\ \A i \in 1..Len(Traces) :
               TLCGet(i) = Len(Traces[i]) + 1 \/ PrintT(<<"BAD", i, TLCGet(i)>>)
          /\ PrintT(<<"DONE", Len(Traces)>>)
=============================================================================
