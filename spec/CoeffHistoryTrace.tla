-------------------------- MODULE CoeffHistoryTrace --------------------------
(* Accepts recordings of real packers and problems.  rec.forms[f].itgs: the *)
(* layout of every integral (PackLayout) with the bits of a fresh array and *)
(* the standard values of every version; rec.arrays: the distinct arrays    *)
(* seen, integral by integral; events name them by number.                  *)
EXTENDS CoeffHistory, Integers, Json, IOUtils, TLC
L == INSTANCE PackLayout
Traces == ndJsonDeserialize(IOEnv.OBS)
VARIABLES tr, l
Rec == Traces[tr]
Ev == Rec.events[l]
(* positions whose values matter to the kernels *)
StdAt(R, e, j) == L!Base(R, e) + j
Extra(R) == UNION {{L!Base(R, e) + L!NStd(R) + j : j \in 1 .. R.olen} : e \in 1 .. Len(R.ents)}
Custom(R) == UNION {L!Start(R, e) + 1 .. L!EndOf(R, e) : e \in {x \in 1 .. Len(R.ents) : L!ModeOf(R, x) = "cut"}}
ItgIs(R, V, ver) == /\ Len(V) = Len(R.bits)
                    /\ \A e \in 1 .. Len(R.ents) : \A j \in 1 .. L!NStd(R) : V[StdAt(R, e, j)] = R.std[ver + 1][e][j]
                    /\ \A p \in Extra(R) \cup Custom(R) : V[p] = R.bits[p]
FormIs(F, arr, ver) == Len(arr) = Len(F.itgs) /\ \A k \in 1 .. Len(arr) : ItgIs(F.itgs[k], arr[k], ver)
(* a form of a problem may be a list of forms *)
Is_(f, ids, ver) == Len(ids) = Len(Rec.forms[f]) /\ \A k \in 1 .. Len(ids) : FormIs(Rec.forms[f][k], Rec.arrays[ids[k]], ver)
TInit == Init /\ tr \in 1 .. Len(Traces) /\ l = 1 /\ nbc = Rec.nbc
HeldOK == Len(Ev.held) = Len(held') /\ \A k \in 1 .. Len(held') : Is_(held'[k].form, Ev.held[k], held'[k].ver)
Nothing == UNCHANGED hvars
Match(e) ==
  \/ e.op = "change" /\ Change /\ HeldOK
  \/ e.op = "pack" /\ Pack(e.f) /\ HeldOK
  \/ e.op = "update" /\ Update(e.k) /\ HeldOK
  \/ e.op \in {"solve", "F", "J"} /\ Start(e.op)
  \/ e.op = "end" /\ Finish /\ HeldOK
  \/ e.op = "zero" /\ e.o = "A" /\ ZeroA
  \/ e.op = "zero" /\ e.o = "b" /\ ZeroB
  \/ e.op = "add" /\ e.o = "A" /\ e.f = 1 /\ e.bcs /\ AddA /\ Is_(1, e.ids, now)
  \/ e.op = "add" /\ e.o = "b" /\ e.f = 2 /\ AddB /\ Is_(2, e.ids, now)
  \/ e.op = "lift" /\ e.f = 1 /\ e.bcs /\ Lift /\ Is_(1, e.ids, now)
     /\ (busy = "F" => e.x0 = "x" /\ e.alpha = -1) /\ (busy = "solve" => e.x0 = "none" /\ e.alpha = 1)
  \/ e.op = "final" /\ e.o = "A" /\ FinalA
  \/ e.op = "ghost" /\ e.add /\ FinalB
  \/ e.op = "bc" /\ e.k <= nbc /\ BcB(e.k) /\ (busy = "F" => e.x0 = "x" /\ e.alpha = -1) /\ (busy = "solve" => e.x0 = "none" /\ e.alpha = 1)
  \/ e.op = "solver" /\ Solver
  \/ e.op = "scatter" /\ Scatter
TNext == l <= Len(Rec.events) /\ Match(Ev) /\ l' = l + 1 /\ UNCHANGED tr
TSpec == TInit /\ [][TNext]_<<hvars, tr, l>>
ASSUME \A i \in 1 .. Len(Traces) : TLCSet(i, 0)
Progress == IF l > TLCGet(tr) THEN TLCSet(tr, l) ELSE TRUE
Report == /\ \A i \in 1 .. Len(Traces) : TLCGet(i) = Len(Traces[i].events) + 1 \/ PrintT(<<"BAD", i, TLCGet(i)>>)
          /\ PrintT(<<"DONE", Len(Traces)>>)
=============================================================================
