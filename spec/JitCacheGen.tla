---------------------------- MODULE JitCacheGen ----------------------------
(* Random schedules for the real code: who goes on (or fails, or is killed) *)
EXTENDS JitCache, Sequences, Json, TLC
CONSTANT MaxSteps
VARIABLES hist, said
GInit == Init /\ hist = <<>> /\ said = FALSE
Add(p, what, s) == Len(hist) < MaxSteps /\ hist' = Append(hist, [p |-> p, do |-> what, s |-> s]) /\ UNCHANGED said
GNext ==
  \/ \E p \in Procs, s \in Sigs : Look(p, s) /\ Add(p, "call", s)
  \/ \E p \in Procs : Steps(p) /\ Add(p, "go", sig[p])
  \/ \E p \in Procs : at[p] \in {"build", "hit"} /\ Len(hist) < MaxSteps /\ UNCHANGED jvars /\ Add(p, "go", sig[p])       \* steps that touch no file
  \/ \E p \in Procs : (Fail(p) \/ HitFail(p)) /\ Add(p, "fail", sig[p])
  \/ \E p \in Procs : Kill(p) /\ Add(p, "kill", sig[p])
  \/ /\ Len(hist) = MaxSteps /\ ~said /\ said' = TRUE /\ UNCHANGED <<jvars, hist>>
     /\ PrintT(<<"CASE", ToJson(hist)>>)
GSpec == GInit /\ [][GNext]_<<jvars, hist, said>>
=============================================================================
