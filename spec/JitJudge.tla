------------------------------ MODULE JitJudge ------------------------------
\* "link": o.used (whether set), o.res the linker command during the compilation, o.cmd the one it stands for, as tokens
\*   [k, v]: "path" tokens (-L.., -Wl,-rpath,..) may be repeated without effect, the order and number of the others count
\* "names": o.items = [key, name, plain]: what a module depends on, its name, the name FFCx itself would give it
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Obs == ndJsonDeserialize(IOEnv.OBS)
VARIABLE i
RECURSIVE Strip(_, _)
Strip(s, seen) == IF s = <<>> THEN <<>>
                  ELSE IF Head(s).k = "path" /\ Head(s).v \in seen THEN Strip(Tail(s), seen)
                  ELSE <<Head(s)>> \o Strip(Tail(s), seen \cup {Head(s).v})
Link(o) == Strip(o.res, {}) = Strip(o.cmd, {})
Names(o) == LET I == o.items IN
    /\ \A a, b \in DOMAIN I : (I[a].key = I[b].key) <=> (I[a].name = I[b].name)
    /\ \A a, b \in DOMAIN I : I[a].name # I[b].plain
    /\ \A a \in DOMAIN I : I[a].itg
OK(o) == IF o.op = "link" THEN Link(o) ELSE Names(o)
Init == i = 0
Next == /\ i < Len(Obs) /\ i' = i + 1
        /\ ~OK(Obs[i + 1]) => PrintT(<<"BAD", i + 1>>)
        /\ i' = Len(Obs) => PrintT(<<"DONE", i'>>)
Spec == Init /\ [][Next]_i
=============================================================================
