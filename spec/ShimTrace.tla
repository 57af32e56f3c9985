----------------------------- MODULE ShimTrace -----------------------------
(* Accepts recordings of the real shim cache (events seen from outside) that
   are behaviours of ShimCache; what the code does unseen is silent.        *)
EXTENDS ShimCache, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.OBS)
VARIABLES tr, l, since
tvars == <<vars, tr, l, since>>
Ev == Traces[tr][l]
A(e) == <<e.h, e.t>>

TraceInit == Init /\ tr \in 1..Len(Traces) /\ l = 1 /\ since = [a \in Actors |-> {}]

Silent == /\ l <= Len(Traces[tr])
          /\ \E a \in Actors : FastHit(a) \/ (FastMiss(a)) \/ Acquire(a) \/ Recheck(a)
          /\ UNCHANGED l
Match(e) ==
  \/ e.ev = "call" /\ Call(A(e))
  \/ e.ev = "cstart" /\ src = e.ver /\ nextid = e.job /\ \E a \in Actors : a[1] = e.h /\ CompileStart(a)
  \/ e.ev = "cdone" /\ \E j \in jobs : j.id = e.job /\ (CompileDone(j) \/ CompileRedo(j) \/ OrphanDone(j))
  \/ e.ev = "cfail" /\ \E j \in jobs : j.id = e.job /\ CompileFail(j)
  \/ e.ev = "kill" /\ Kill(e.h)
  \/ e.ev = "killidle" /\ UNCHANGED vars
  \/ e.ev = "edit" /\ Edit
  \/ e.ev = "ret" /\ e.ver \in since[A(e)] /\ Return(A(e))
  \/ e.ev = "raise" /\ Raise(A(e))
  \/ e.ev = "look" /\ UNCHANGED vars
TraceNext == /\ \/ Silent
                \/ /\ l <= Len(Traces[tr]) /\ Match(Ev) /\ l' = l + 1
             /\ since' = [a \in Actors |-> IF pc'[a] = "done"
                             THEN (IF pc[a] = "done" THEN since[a] ELSE {}) \cup {lib'.ver} ELSE {}]
             /\ UNCHANGED tr
TraceSpec == TraceInit /\ [][TraceNext]_tvars

ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Progress == IF l > TLCGet(tr) THEN TLCSet(tr, l) ELSE TRUE
Report == /\ \A i \in 1..Len(Traces) :
               TLCGet(i) = Len(Traces[i]) + 1 \/ PrintT(<<"BAD", i, TLCGet(i)>>)
          /\ PrintT(<<"DONE", Len(Traces)>>)
=============================================================================
