import random
from vc import SPEC, main
import cxx
from implcases import case

SOURCES = ["primitive_funcs_lib", "impl_funcs_lib", "tpms_lib", "affine_transf", "ref_system", "bezier_tp", "bezier_tp_utils",
           "bezier_tp_utils_composition", "monomials_tp", "polynomial_tp", "tensor_index_tp", "bbox", "point", "impl_utils", "tolerance"]


def run(c):
    cfg = (SPEC / "ImplFuncsLaws.cfg").read_text()
    c.tlc("ImplFuncsLaws", cfg_text=cfg if c.thorough else cfg.replace("Reach = 3", "Reach = 2"), workers=6)
    exe = cxx.build(c, "implfuncs", SOURCES)
    rng = random.Random(c.seed)
    n = c.pick(1, 8)
    plan = dict(exact=420, square=40, itv=200, sqitv=120, periodic=160, pitv=80, map=120, back=40, at=80, sys=60, around=30, get=120)
    cases, facts = [], []
    for op, k in plan.items():
        for _ in range(k * n):
            w, f = case(rng, op)
            cases.append(w)
            facts.append({"k": f.pop("op", op), **f})
    recs = []
    for w, f, r in zip(cases, facts, cxx.run(exe, cases)):
        if "crash" in r:
            c.violation(f"the library of implicit functions died on {w[:140]}: {r['crash']}", w)
            continue
        recs.append((w, {**f, **r}))
        if f["k"] in ("exact", "periodic"):
            c.sample({"case": w, "answer": r})
    for b in c.judge("ImplFuncsJudge", [r for _, r in recs], cfg="Judge.cfg", chunk=60):
        w, r = recs[b]
        c.violation(f"{r['k']} is not as defined: {w[:170]}", {"case": w, "answer": r})
    c.extra["cases"] = len(cases)
    c.extra["by kind"] = {k: v * n for k, v in plan.items()}
    c.extra["rule"] = ("integer points and parameters, rational axes: values from the definition, derivatives from exact difference "
                       "formulas; periodic surfaces at twelfths in Q(sqrt 3)")


main("C29", run)
