--------------------------- MODULE TabulateJudge ---------------------------
EXTENDS TabulateABI, Json, IOUtils
Obs == ndJsonDeserialize(IOEnv.OBS)
VARIABLE i
Init == i = 0
Next == /\ i < Len(Obs) /\ i' = i + 1
        /\ ~Conforms(Obs[i + 1]) => PrintT(<<"BAD", i + 1>>)
        /\ i' = Len(Obs) => PrintT(<<"DONE", i'>>)
Spec == Init /\ [][Next]_i
=============================================================================
