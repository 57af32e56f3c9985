---------------------------- MODULE ScratchTrace ----------------------------
EXTENDS Scratch, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.OBS)
VARIABLES tr, l
Ev == Traces[tr][l]
TInit == Init /\ tr \in 1..Len(Traces) /\ l = 1
Match(e) ==
  \/ e.op = "get" /\ ~e.null /\ ~e.huge /\ Get(<<e.th, e.t>>, e.lo, e.hi)
     /\ e.kept       \* what the thread wrote before is there if its block did not move
  \/ e.op = "get" /\ e.huge /\ e.null /\ Refuse(<<e.th, e.t>>)
  \* the words written by every owner are still its own
  \/ e.op = "verify" /\ e.intact /\ UNCHANGED block
TNext == l <= Len(Traces[tr]) /\ Match(Ev) /\ l' = l + 1 /\ UNCHANGED tr
TSpec == TInit /\ [][TNext]_<<block, tr, l>>
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Good == Separate
Progress == IF l > TLCGet(tr) THEN (IF Separate THEN TLCSet(tr, l) ELSE TRUE) ELSE TRUE
Report == /\ \A i \in 1..Len(Traces) :
               TLCGet(i) = Len(Traces[i]) + 1 \/ PrintT(<<"BAD", i, TLCGet(i)>>)
          /\ PrintT(<<"DONE", Len(Traces)>>)
=============================================================================
