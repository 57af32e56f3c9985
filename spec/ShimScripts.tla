---------------------------- MODULE ShimScripts ----------------------------
(* Behaviours of ShimCache as scripts of the steps an outside controller can
   take (calls, compiler ends, kills, edits); what the code does on its own
   runs to quiescence between two of them.                                  *)
EXTENDS ShimCache, Json
CONSTANT Len0
VARIABLE hist, said
allvars == <<vars, hist, said>>

Quiet == \A a \in Actors : ~ENABLED Internal(a)
Ext == \/ \E a \in Actors : Call(a) /\ hist' = Append(hist, <<"call", ToString(a[1]), ToString(a[2])>>)
       \/ \E j \in jobs : \/ (CompileDone(j) \/ CompileRedo(j)) /\ hist' = Append(hist, <<"finish">>)
                          \/ CompileFail(j) /\ hist' = Append(hist, <<"fail">>)
                          \/ OrphanDone(j) /\ hist' = Append(hist, <<"orphan">>)
       \/ \E h \in Hosts : Kill(h) /\ \E how \in {"kill", "killall"} :
                           hist' = Append(hist, <<how, ToString(h)>>)
       \/ Edit /\ \E w \in {"shim", "builder"} : hist' = Append(hist, <<"edit", w>>)
ScriptInit == Init /\ hist = <<>> /\ said = FALSE
ScriptNext ==
  \/ /\ Len(hist) < Len0 /\ ~Quiet /\ (\E a \in Actors : Internal(a)) /\ UNCHANGED <<hist, said>>
  \/ /\ Len(hist) < Len0 /\ Quiet /\ Ext /\ UNCHANGED said
  \/ /\ Len(hist) = Len0 /\ ~said /\ said' = TRUE /\ UNCHANGED <<vars, hist>>
     /\ PrintT(<<"CASE", ToJson(hist)>>)
ScriptSpec == ScriptInit /\ [][ScriptNext]_allvars
=============================================================================
