import random
from vc import main
import cxx
import domcases
from domcases import join

SHAPES = {2: [(1, 1), (2, 1), (1, 2), (3, 2), (2, 3), (4, 3)], 3: [(1, 1, 1), (2, 1, 1), (1, 1, 2), (2, 2, 1), (1, 2, 2), (2, 2, 2)]}


def run(c):
    c.tlc("UnfittedGeometryLaws", workers=8)
    exe = cxx.build(c, "domain", domcases.SOURCES)
    rng = random.Random(c.seed * 22)
    cases, facts = [], []
    for k in range(c.pick(360, 3000)):
        dim = 2 if k % 3 else 3
        text, f, cells = domcases.domain(rng, dim, SHAPES[dim])
        tf = [[rng.randrange(cells), rng.randrange(2 * dim)] for _ in range(rng.randint(0, 12))]
        tc = rng.sample(range(cells), rng.randint(0, cells))
        cases.append(f"status {dim} {text} {len(tf)} {join(*tf)} {join([len(tc)], tc)}")
        facts.append({**f, "tf": tf, "tc": tc})
    recs = []
    for case, f, r in zip(cases, facts, cxx.run(exe, cases)):
        if "crash" in r:
            c.violation(f"the classification died on {case[:160]}: {r['crash']}", case)
            continue
        r["allc"] = r.pop("all")
        recs.append((case, {**f, **r}))
        c.sample({"case": case, "counts": r["counts"]})
    for b in c.judge("UnfittedGeometryJudge", [r for _, r in recs], cfg="Judge.cfg", chunk=40, jobs=8):
        case, r = recs[b]
        c.violation(f"statuses differ from the geometry: {case[:200]}", {"case": case, "answer": r})
    c.extra["cases"] = len(cases)
    c.extra["rule"] = "domains bounded by the lattice that halves the cells; every query of cells, facets and leaves judged by TLC"
    c.assumptions.append("Algoim is a stand-in that is exact on this lattice; faces inside the level set get points (phi <= 0)")
    c.assumptions.append("polynomials are half-spaces and slabs (level sets with crossing planes on facets are not judged)")


main("C22", run)
