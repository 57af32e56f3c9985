import random
from vc import main
import cxx

join = lambda *vs: " ".join(str(x) for v in vs for x in v)


def run(c):
    exe = cxx.build(c, "rules", ["quadrature", "quadrature_lib", "bbox", "point", "tolerance"])
    rng = random.Random(c.seed * 27)
    # all the rules of one dimension
    ask = [(r, n) for r in ("gauss", "tanh") for n in range(1, 101)]
    cases = [f"rule {r} {n}" for r, n in ask]
    recs, rules = [], {}
    for (r, n), a in zip(ask, cxx.run(exe, cases)):
        if "crash" in a:
            c.violation(f"the {r} rule of {n} points cannot be asked for: {a['crash']}", [r, n])
            continue
        rules[r, n] = a
        recs.append((f"rule {r} {n}", {**a, "rule": r, "n": n}))
    # their products
    boxes = []
    for k in range(c.pick(120, 900)):
        dim, r = rng.choice([1, 2, 3]), rng.choice(["gauss", "tanh"])
        n = [rng.randint(1, (40, 8, 4)[dim - 1]) for _ in range(dim)]
        if rng.random() < .3:
            n = [n[0]] * dim
        unit = int(rng.random() < .3)
        lo = [0 if unit else rng.randint(-12, 12) for _ in range(dim)]
        ln = [4 if unit else rng.choice([1, 2, 3, 4, 6, 10]) for _ in range(dim)]
        scale = rng.choice([4, 4, 1, 10])
        boxes.append((f"box {r} {dim} {join(n, lo, [a + b for a, b in zip(lo, ln)])} {scale} {unit}",
                      {"n": n, "lo": lo, "len": ln, "scale": scale}, r))
    for (case, f, r), a in zip(boxes, cxx.run(exe, [b[0] for b in boxes])):
        if "crash" in a:
            c.violation(f"a rule of a box cannot be made: {case}: {a['crash']}", case)
            continue
        if any((r, n) not in rules for n in f["n"]):
            continue
        recs.append((case, {**a, **f, "X": [rules[r, n]["x"] for n in f["n"]], "W": [rules[r, n]["w"] for n in f["n"]]}))
        c.sample({"case": case, "first": a["points"][:2]})
    order = sorted(range(len(recs)), key=lambda k: (k * 37) % 101)  # the long ones spread over the jobs
    recs = [recs[k] for k in order]
    for b in c.judge("QuadRuleJudge", [r for _, r in recs], cfg="Judge.cfg", chunk=14, jobs=8):
        c.violation(f"quadrature rule is not what it is called: {recs[b][0]}", {"case": recs[b][0], "answer": recs[b][1]})
    c.extra["cases"] = len(recs)
    c.extra["rule"] = "all rules of up to 100 points; boxes in one to three dimensions"
    c.assumptions.append("numbers are compared up to 1e-9 (exactness) and 2e-11 (coordinates)")


main("C27", run)
