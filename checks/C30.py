import json
import random
from vc import main
import pycases
import pyext

FUNCS = ("exact", "square", "periodic", "at", "get", "err")


def run(c):
    folder = pyext.build(c)
    rng = random.Random(c.seed * 30)
    n = c.pick(1, 6)
    plan = dict(exact=220, square=40, periodic=50, at=50, get=100, err=170, bbox=30, grid=50, gauss=20, domain=160, mesh=110, reparam=60)
    cases, facts = [], []
    for op, k in plan.items():
        for _ in range(k * n):
            o, f = pycases.case(rng, op)
            cases.append(o)
            facts.append(f)
    order = list(range(len(cases)))
    rng.shuffle(order)
    recs = []
    for k, r in zip(order, pyext.run(folder, [json.dumps(cases[k]) for k in order])):
        if "crash" in r:
            c.violation(f"{facts[k]['k']} died: {r['crash']}: {json.dumps(cases[k])[:300]}", cases[k])
            continue
        recs.append((cases[k], {**r, **facts[k]}))
    for module, mine in (("PyFuncsJudge", True), ("PyDomainJudge", False)):
        part = [x for x in recs if (x[1]["k"] in FUNCS) == mine]
        for o, r in part[:2]:
            c.sample({"case": o, "answer": r})
        for b in c.judge(module, [r for _, r in part], cfg_text="SPECIFICATION PySpec\nCHECK_DEADLOCK FALSE\n", chunk=40, jobs=8):
            o, r = part[b]
            c.violation(f"{r['k']} through Python is not what the library defines: {json.dumps(o)[:260]}", {"case": o, "answer": r})
    c.extra["cases"] = len(cases)
    c.extra["by kind"] = {k: v * n for k, v in plan.items()}
    c.extra["rule"] = "descriptions of calls evaluated by qugar.impl, qugar.mesh and the compiled qugar.cpp; arrays in all layouts, read after their owners are gone"
    c.assumptions.append("nanobind is a stand-in that follows its documented rules for arguments, overloads and return values; Algoim and FEniCSx are stand-ins")


main("C30", run)
