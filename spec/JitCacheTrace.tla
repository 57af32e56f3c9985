--------------------------- MODULE JitCacheTrace ---------------------------
\* Accepts recordings of processes that compile forms.  An event: process e.p was told e.do ("call", "go", "fail",
\*  "kill") and reached e.at: "wait", "shim" (building the shim), "gen" (generating code), "cc" (in the compiler),
\*  "load", "ret", "raise", "dead".  e.files[s] = [claim, ready, lib] as found then; e.ok: what it returned or
\*  raised is right and the process is as it was before the call.
EXTENDS JitCache, Sequences, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.OBS)
VARIABLES tr, l,
          gen,        \* work done in this call: the shim was looked after, code (with the data of the integrals) was generated
          pre         \* signature asked for by a call that has not looked yet
tvars == <<jvars, tr, l, gen, pre>>
Ev == Traces[tr][l]
TInit == Init /\ tr \in 1..Len(Traces) /\ l = 1 /\ gen = [p \in Procs |-> {}] /\ pre = [p \in Procs |-> {}]
Work == {"shim", "gen"}
Stay == UNCHANGED jvars
Gen(p, w) == gen' = [gen EXCEPT ![p] = @ \cup ({w} \cap Work)]
Same == UNCHANGED <<gen, pre>>
Looked(p) == pre' = [pre EXCEPT ![p] = {}]
Arrived(p, w) == (at'[p] = "wait" => w = "wait") /\ (at'[p] = "build" => w \in Work)
Calls(p, e) ==
  \/ Look(p, e.s) /\ Arrived(p, e.at) /\ gen' = [gen EXCEPT ![p] = {e.at} \cap Work] /\ Looked(p)
  \/ at[p] = "out" /\ e.at \in Work /\ Stay /\ gen' = [gen EXCEPT ![p] = {e.at} \cap Work] /\ pre' = [pre EXCEPT ![p] = {e.s}]
Before(p, e) ==                                   \* work done before looking
  /\ pre[p] # {}
  /\ \/ e.do = "go" /\ e.at \in Work /\ Stay /\ Gen(p, e.at) /\ UNCHANGED pre
     \/ e.do = "go" /\ (\E s \in pre[p] : Look(p, s)) /\ Arrived(p, e.at) /\ Gen(p, e.at) /\ Looked(p)
     \/ e.do = "go" /\ e.at = "cc" /\ UNCHANGED <<ready, ticks, fails, kills, gen>> /\ Looked(p)
        /\ \E s \in pre[p] : /\ ~claim[s] /\ claim' = [claim EXCEPT ![s] = TRUE] /\ lib' = [lib EXCEPT ![s] = "part"]
                             /\ sig' = [sig EXCEPT ![p] = s] /\ Go(p, "cc")
     \/ e.do = "fail" /\ e.at = "raise" /\ e.exc = "mine" /\ Stay /\ Looked(p) /\ UNCHANGED gen
     \/ e.do = "kill" /\ Go(p, "dead") /\ Looked(p) /\ UNCHANGED <<gen, claim, lib, ready, sig, ticks, fails, kills>>
IsReady(p, e) == e.files[sig[p]].ready
(* the compiler ended; the library may be published at once *)
EndCc(p, e) == /\ at[p] = "cc" /\ lib' = [lib EXCEPT ![sig[p]] = "full"] /\ ready' = [ready EXCEPT ![sig[p]] = IsReady(p, e)]
               /\ UNCHANGED <<claim, sig, ticks, fails, kills>>
PublishNow(p, e) == /\ at[p] = "built" /\ ready' = [ready EXCEPT ![sig[p]] = @ \/ IsReady(p, e)] /\ UNCHANGED <<claim, lib, sig, ticks, fails, kills>>
Builds(p, e) ==
  \/ at[p] = "build" /\ e.at \in Work /\ Stay /\ Gen(p, e.at) /\ UNCHANGED pre
  \/ e.at = "cc" /\ CcStart(p) /\ Same
  \/ e.at \in Work \cup {"load"} /\ (EndCc(p, e) \/ PublishNow(p, e)) /\ Go(p, "built") /\ Gen(p, e.at) /\ UNCHANGED pre
  \/ e.at = "ret" /\ IsReady(p, e) /\ (EndCc(p, e) \/ PublishNow(p, e)) /\ Go(p, "out") /\ gen[p] = Work /\ Same
Waits(p, e) ==
  \/ e.at = "wait" /\ Miss(p) /\ Same
  \/ e.at = "raise" /\ e.exc = "timeout" /\ TimeOut(p) /\ Same
  \/ e.at \in {"shim", "gen", "load"} /\ Hit(p) /\ Gen(p, e.at) /\ UNCHANGED pre
  \/ e.at = "ret" /\ gen[p] = Work /\ at[p] = "wait" /\ ready[sig[p]] /\ Go(p, "out") /\ UNCHANGED <<claim, lib, ready, sig, ticks, fails, kills>> /\ Same
Hits(p, e) ==
  \/ e.at \in {"shim", "gen", "load"} /\ at[p] = "hit" /\ Stay /\ Gen(p, e.at) /\ UNCHANGED pre
  \/ e.at = "ret" /\ gen[p] = Work /\ HitReturn(p) /\ Same
Match(e) == LET p == e.p IN
  \/ e.do = "call" /\ Calls(p, e)
  \/ Before(p, e)
  \/ pre[p] = {} /\ e.do = "go" /\ (Builds(p, e) \/ Waits(p, e) \/ Hits(p, e))
  \/ pre[p] = {} /\ e.do = "fail" /\ e.at = "raise" /\ e.exc = "mine" /\ (Fail(p) \/ HitFail(p)) /\ Same
  \/ pre[p] = {} /\ e.do = "kill" /\ e.at = "dead" /\ Kill(p) /\ Same
Agree(e) == \A s \in Sigs : e.files[s].claim = claim'[s] /\ e.files[s].ready = ready'[s] /\ e.files[s].lib = lib'[s]
TNext == /\ l <= Len(Traces[tr]) /\ Match(Ev) /\ Agree(Ev) /\ Ev.ok
         /\ l' = l + 1 /\ UNCHANGED tr
TSpec == TInit /\ [][TNext]_tvars
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Progress == IF l > TLCGet(tr) THEN TLCSet(tr, l) ELSE TRUE
Report == /\ \A i \in 1..Len(Traces) :
               TLCGet(i) = Len(Traces[i]) + 1 \/ PrintT(<<"BAD", i, TLCGet(i)>>)
          /\ PrintT(<<"DONE", Len(Traces)>>)
=============================================================================
