-------------------------- MODULE ShimPublishTrace --------------------------
(* The part of ShimCache that C01 is about, as an acceptor of recordings:
   a returned library is complete, and from then on the library file is
   complete whenever anyone looks at it.                                    *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.OBS)
VARIABLES tr, l, handed, bad
Ev == Traces[tr][l]
Init == tr = 1 /\ l = 1 /\ handed = FALSE /\ bad = FALSE
Wrong(e) == \/ e.ev = "ret" /\ e.kind # "full"
            \/ e.ev = "look" /\ handed /\ e.kind # "full"
Step == /\ tr <= Len(Traces) /\ l <= Len(Traces[tr])
        /\ l' = l + 1
        /\ handed' = (handed \/ Ev.ev = "ret")
        /\ bad' = (bad \/ Wrong(Ev))
        /\ (Wrong(Ev) /\ ~bad) => PrintT(<<"BAD", tr, l>>)
        /\ UNCHANGED tr
NextTrace == /\ tr <= Len(Traces) /\ l > Len(Traces[tr])
             /\ tr' = tr + 1 /\ l' = 1 /\ handed' = FALSE /\ bad' = FALSE
             /\ (tr = Len(Traces)) => PrintT(<<"DONE", tr>>)
Spec == Init /\ [][Step \/ NextTrace]_<<tr, l, handed, bad>>
=============================================================================
