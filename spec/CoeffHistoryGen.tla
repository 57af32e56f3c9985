--------------------------- MODULE CoeffHistoryGen ---------------------------
\* Random histories, as scripts for the code.
EXTENDS CoeffHistory, Json, TLC
VARIABLES hist, said
GInit == Init /\ hist = <<>> /\ said = FALSE
Add(r) == hist' = Append(hist, r) /\ UNCHANGED said
Skip == UNCHANGED <<now, held, A, b, busy, nbc>> /\ Idle /\ Tick
GNext ==
  \/ Change /\ Add([op |-> "change"])
  \/ \E f \in FormIds : Pack(f) /\ Add([op |-> "pack", f |-> f])
  \/ \E k \in 1 .. Len(held) : Update(k) /\ Add([op |-> "update", k |-> k])
  \/ \E w \in {"solve", "F", "J"} : Skip /\ Add([op |-> w])
  \/ /\ ops = MaxOps /\ ~said /\ said' = TRUE /\ UNCHANGED <<hvars, hist>>
     /\ PrintT(<<"CASE", ToJson([nbc |-> nbc, ops |-> hist])>>)
GSpec == GInit /\ [][GNext]_<<hvars, hist, said>>
=============================================================================
