import random
from vc import main
import cxx
import domcases
from domcases import join

SHAPES = {2: [(1, 1), (2, 1), (1, 2), (3, 2), (2, 2)], 3: [(1, 1, 1), (2, 1, 1), (1, 1, 2), (1, 2, 1), (2, 2, 1)]}


def run(c):
    c.tlc("UnfittedGeometryLaws", cfg_text="SPECIFICATION Spec\nCONSTANTS Shape <- S111\n Loose <- "
          + c.pick("OddSides", "AllSides") + "\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\n", workers=8)
    exe = cxx.build(c, "domain", domcases.SOURCES)
    rng = random.Random(c.seed * 24)
    cases, facts = [], []
    for k in range(c.pick(500, 4000)):
        dim = 2 if k % 3 else 3
        text, f, cells = domcases.domain(rng, dim, SHAPES[dim])
        tc = [rng.randrange(cells) for _ in range(rng.randint(1, cells + 2))]
        tf = [[x, y] for x in range(cells) for y in range(2 * dim)]
        rng.shuffle(tf)
        tf = tf[:14] + [rng.choice(tf)]
        n, inc, exc = rng.choice([1, 2, 3]), rng.random() < .7, rng.random() < .5
        cases.append(f"quad {dim} {text} {n} {rng.choice([0, 1, 2])} {int(inc)} {int(exc)} {join([len(tc)], tc)} {len(tf)} {join(*tf)}")
        facts.append({**f, "f": tf, "c": tc, "npts": n, "include": inc, "exclude": exc})
    recs = []
    for case, f, r in zip(cases, facts, cxx.run(exe, cases)):
        if "crash" in r:
            c.violation(f"the generation of quadratures died on {case[:160]}: {r['crash']}", case)
            continue
        recs.append((case, {**f, **r}))
        c.sample({"case": case, "volume": r["vol"][:2]})
    for b in c.judge("UnfittedGeometryJudge", [r for _, r in recs], cfg="Judge.cfg", chunk=40, jobs=8):
        case, r = recs[b]
        c.violation(f"quadratures do not integrate over the domain: {case[:200]}", {"case": case, "answer": r})
    c.extra["cases"] = len(cases)
    c.extra["rule"] = "domains bounded by the lattice that halves the cells, where pieces are told apart by their multilinear moments"
    c.assumptions.append("Algoim is a stand-in that is exact on this lattice; faces inside the level set get points (phi <= 0), and so may surfaces")
    c.assumptions.append("polynomials are half-spaces and slabs (level sets with crossing planes on facets are not judged)")


main("C24", run)
