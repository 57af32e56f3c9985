------------------------ MODULE ElementRegistryTrace ------------------------
(* Accepts recordings of the real shim: one operation with its answer per
   event.  Concatenated walks; event "fresh" starts a new process.          *)
EXTENDS ElementRegistry, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.OBS)
VARIABLES tr, l
Ev == Traces[tr][l]
TInit == Init /\ tr \in 1..Len(Traces) /\ l = 1
Match(e) ==
  \/ /\ e.op = "register" /\ Register(e.t, e.k)
     /\ IF e.good THEN e.ans = RegisterAnswer(e.t, e.k) ELSE e.ans < 0
  \/ /\ e.op = "tabulate" /\ Look
     /\ IF InRange(e.t, e.h) THEN e.ans = 0 /\ \E i \in DOMAIN e.same : e.same[i] = Denotes(e.t, e.h)
        ELSE e.ans < 0 /\ ~e.touched
  \/ /\ e.op = "shape" /\ Look
     /\ IF InRange(e.t, e.h) THEN e.ans = 0 /\ \E i \in DOMAIN e.same : e.same[i] = Denotes(e.t, e.h)
        ELSE e.ans < 0 /\ ~e.touched
  \/ e.op = "size" /\ Look /\ e.ans = Len(reg[e.t])
  \/ e.op = "reset" /\ Reset
TNext == l <= Len(Traces[tr]) /\ Match(Ev) /\ l' = l + 1 /\ UNCHANGED tr
TSpec == TInit /\ [][TNext]_<<rvars, tr, l>>
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Progress == IF l > TLCGet(tr) THEN TLCSet(tr, l) ELSE TRUE
Report == /\ \A i \in 1..Len(Traces) :
               TLCGet(i) = Len(Traces[i]) + 1 \/ PrintT(<<"BAD", i, TLCGet(i)>>)
          /\ PrintT(<<"DONE", Len(Traces)>>)
=============================================================================
