-------------------------- MODULE FormCompileJudge --------------------------
\* Judges compiled forms.  o.op = "form": o.raw/o.after integrals before and after, o.jit those handed to the compiler,
\*  o.marks and o.sub per type, o.all facets of everything, o.given/o.got what else goes into the form.
\* "list": o.tokens -1 [ -2 ] 0 an empty form, k the form k; o.res what came back; o.refs the compiled forms' numbers.
EXTENDS FormCompile, TLC, Json, IOUtils
Obs == ndJsonDeserialize(IOEnv.OBS)
VARIABLE i
\* two integrals of a type, one with and one without marks: DOLFINx refuses such forms
Uneven(o) == \E a, b \in Rng(o.raw) : a.t = b.t /\ ~Over(a) /\ ~Over(b) /\ a.marked # b.marked
Same(o) == o.after = o.raw
Metas(o) == \A r \in Rng(o.raw) : Rng(r.meta) \subseteq Rng(ById(o.jit, r.tag).meta)
Domain1(o) == Domains(o.marks, o.all, o.raw, o.jit, o.sub)
Arguments(o) == o.got.spaces = (IF o.diag THEN <<o.given.spaces[1]>> ELSE o.given.spaces)
Coefficients(o) == o.got.coeffs = [k \in DOMAIN o.pos |-> o.given.coeffs[o.pos[k] + 1]]
Rest(o) == o.got.consts = o.given.consts /\ o.got.maps = o.given.maps /\ o.got.misc = o.given.misc
FormOK(o) == IF o.refused THEN Uneven(o) /\ Same(o)
             ELSE Faithful(o.raw, o.jit) /\ Metas(o) /\ Same(o) /\ Domain1(o) /\ Arguments(o) /\ Coefficients(o) /\ Rest(o)
ListOK(o) == o.res = SelectSeq(o.tokens, LAMBDA k : k >= 0)
OK(o) == IF o.op = "form" THEN FormOK(o) ELSE ListOK(o)
Why(o) == IF o.op # "form" \/ o.refused THEN "list" ELSE
    CASE ~Faithful(o.raw, o.jit) -> "integrals" [] ~Same(o) -> "modified" [] ~Metas(o) -> "metadata" [] ~Domain1(o) -> "domains"
      [] ~Arguments(o) -> "arguments" [] ~Coefficients(o) -> "coefficients" [] OTHER -> "rest"
Init == i = 0
Next == /\ i < Len(Obs) /\ i' = i + 1
        /\ ~OK(Obs[i + 1]) => PrintT(<<"BAD", i + 1>>) /\ PrintT(<<"WHY", i + 1, Why(Obs[i + 1])>>)
        /\ i' = Len(Obs) => PrintT(<<"DONE", i'>>)
Spec == Init /\ [][Next]_i
=============================================================================
