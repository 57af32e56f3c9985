------------------------------ MODULE JitCache ------------------------------
(* Kernels compiled just in time and kept in a folder shared by processes. *)
(* Per signature (of a form with its options): a claim file, the library   *)
(* (absent, half written, complete) and the file that says it is ready.    *)
(* A process that finds a claim waits for the library to be ready.         *)
EXTENDS Naturals, FiniteSets
CONSTANTS Procs, Sigs, MaxTicks, MaxFails, MaxKills
VARIABLES claim, lib, ready, at, sig, ticks, fails, kills
jvars == <<claim, lib, ready, at, sig, ticks, fails, kills>>
Init == /\ claim = [s \in Sigs |-> FALSE] /\ lib = [s \in Sigs |-> "none"] /\ ready = [s \in Sigs |-> FALSE]
        /\ at = [p \in Procs |-> "out"] /\ sig = [p \in Procs |-> CHOOSE s \in Sigs : TRUE] /\ ticks = [p \in Procs |-> 0] /\ fails = 0 /\ kills = 0
Go(p, where) == at' = [at EXCEPT ![p] = where]
(* a call looks for the kernels: the first one claims them *)
Look(p, s) == /\ at[p] = "out" /\ sig' = [sig EXCEPT ![p] = s] /\ ticks' = [ticks EXCEPT ![p] = 0]
              /\ IF claim[s] THEN Go(p, "wait") /\ UNCHANGED claim ELSE Go(p, "build") /\ claim' = [claim EXCEPT ![s] = TRUE]
              /\ UNCHANGED <<lib, ready, fails, kills>>
(* ------------------------------------------------------------ the builder *)
CcStart(p) == at[p] = "build" /\ Go(p, "cc") /\ lib' = [lib EXCEPT ![sig[p]] = "part"] /\ UNCHANGED <<claim, ready, sig, ticks, fails, kills>>
CcEnd(p) == at[p] = "cc" /\ Go(p, "built") /\ lib' = [lib EXCEPT ![sig[p]] = "full"] /\ UNCHANGED <<claim, ready, sig, ticks, fails, kills>>
Publish(p) == at[p] = "built" /\ ~ready[sig[p]] /\ ready' = [ready EXCEPT ![sig[p]] = TRUE] /\ UNCHANGED <<claim, lib, at, sig, ticks, fails, kills>>
(* a failure of any step gives the claim back and is raised *)
Fail(p) == at[p] \in {"build", "cc"} /\ fails < MaxFails /\ Go(p, "out") /\ claim' = [claim EXCEPT ![sig[p]] = FALSE] /\ fails' = fails + 1
           /\ UNCHANGED <<lib, ready, sig, ticks, kills>>
Return(p) == at[p] = "built" /\ ready[sig[p]] /\ Go(p, "out") /\ UNCHANGED <<claim, lib, ready, sig, ticks, fails, kills>>
(* ------------------------------------------------------------- the others *)
Hit(p) == at[p] = "wait" /\ ready[sig[p]] /\ Go(p, "hit") /\ UNCHANGED <<claim, lib, ready, sig, ticks, fails, kills>>
Miss(p) == at[p] = "wait" /\ ~ready[sig[p]] /\ ticks[p] < MaxTicks /\ ticks' = [ticks EXCEPT ![p] = @ + 1] /\ UNCHANGED <<claim, lib, ready, at, sig, fails, kills>>
TimeOut(p) == at[p] = "wait" /\ ~ready[sig[p]] /\ ticks[p] = MaxTicks /\ Go(p, "out") /\ UNCHANGED <<claim, lib, ready, sig, ticks, fails, kills>>
HitReturn(p) == at[p] = "hit" /\ Go(p, "out") /\ UNCHANGED <<claim, lib, ready, sig, ticks, fails, kills>>
HitFail(p) == at[p] = "hit" /\ fails < MaxFails /\ Go(p, "out") /\ fails' = fails + 1 /\ UNCHANGED <<claim, lib, ready, sig, ticks, kills>>
Kill(p) == at[p] \notin {"out", "dead"} /\ kills < MaxKills /\ Go(p, "dead") /\ kills' = kills + 1 /\ UNCHANGED <<claim, lib, ready, sig, ticks, fails>>
Steps(p) == CcStart(p) \/ CcEnd(p) \/ Publish(p) \/ Return(p) \/ Hit(p) \/ Miss(p) \/ TimeOut(p) \/ HitReturn(p)
Next == \E p \in Procs : Steps(p) \/ Fail(p) \/ HitFail(p) \/ Kill(p) \/ \E s \in Sigs : Look(p, s)
Spec == Init /\ [][Next]_jvars /\ \A p \in Procs : WF_jvars(Steps(p))
(* ------------------------------------------------------------- guarantees *)
Busy(s) == {p \in Procs : sig[p] = s /\ at[p] \in {"build", "cc", "built"}}
Complete == \A s \in Sigs : ready[s] => lib[s] = "full" /\ claim[s]
Loaded == \A p \in Procs : (at[p] = "hit") => lib[sig[p]] = "full" /\ ready[sig[p]]
OneBuilder == \A s \in Sigs : Cardinality(Busy(s)) <= 1
Once == [][\A s \in Sigs : ready[s] => ready'[s] /\ lib'[s] = lib[s]]_jvars
(* a claim without a library belongs to somebody at work, unless somebody was killed *)
Released == \A s \in Sigs : (claim[s] /\ ~ready[s] /\ kills = 0) => Busy(s) # {}
Ends == \A p \in Procs : at[p] \notin {"out", "dead"} ~> at[p] \in {"out", "dead"}
=============================================================================
