import json
import random
from vc import main
import pycases
import pyext


def run(c):
    folder = pyext.build(c)
    rng = random.Random(c.seed * 31)
    n = c.pick(1, 6)
    plan = dict(plot=420, shown=40)
    cases, facts = [], []
    for op, k in plan.items():
        for _ in range(k * n):
            o, f = pycases.case(rng, op)
            cases.append(o)
            facts.append(f)
    recs = []
    for k, r in enumerate(pyext.run(folder, [json.dumps(o) for o in cases], plot=True)):
        if "crash" in r:
            c.violation(f"{facts[k].get('what', facts[k]['k'])} died: {r['crash']}: {json.dumps(cases[k])[:300]}", cases[k])
            continue
        recs.append((cases[k], {**r, **facts[k]}))
    for o, r in recs[:3]:
        c.sample({"case": o, "answer": r})
    for b in c.judge("PlotJudge", [r for _, r in recs], cfg_text="SPECIFICATION PlotSpec\nCHECK_DEADLOCK FALSE\n", chunk=40, jobs=8):
        o, r = recs[b]
        c.violation(f"{r.get('what', 'reparameterization')} as shown is not the {'mesh' if r.get('mesh') else 'domain'}: {json.dumps(o)[:260]}", {"case": o, "answer": r})
    c.extra["cases"] = {w: sum(f.get("what", f["k"]) == w for f in facts) for w in ("cells", "facets", "quad", "grid", "shown")}
    c.assumptions.append("PyVista is a stand-in with VTK's orders of cells, edges and faces; nanobind, Algoim and FEniCSx are stand-ins; one process")


main("C31", run)
