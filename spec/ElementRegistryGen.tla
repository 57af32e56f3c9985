------------------------- MODULE ElementRegistryGen -------------------------
(* Random walks of ElementRegistry with every kind of query, as scripts.    *)
EXTENDS ElementRegistry, Json
VARIABLES hist, said
Add(r) == hist' = Append(hist, r)
GInit == Init /\ hist = <<>> /\ said = FALSE
Handles == -2..5
GNext ==
  \/ /\ ops < MaxOps /\ UNCHANGED said
     /\ \/ \E t \in Types, k \in Keys : Register(t, k) /\ Add([op |-> "register", t |-> t, k |-> k])
        \/ \E t \in Types, h \in Handles : Look /\ Add([op |-> "tabulate", t |-> t, h |-> h])
        \/ \E t \in Types, h \in Handles : Look /\ Add([op |-> "shape", t |-> t, h |-> h])
        \/ \E t \in Types : Look /\ Add([op |-> "size", t |-> t])
        \/ Reset /\ Add([op |-> "reset"])
  \/ /\ ops = MaxOps /\ ~said /\ said' = TRUE /\ UNCHANGED <<rvars, hist>>
     /\ PrintT(<<"CASE", ToJson(hist)>>)
GSpec == GInit /\ [][GNext]_<<rvars, hist, said>>
=============================================================================
