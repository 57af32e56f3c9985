import itertools
import random
from vc import main
import cxx


def run(c):
    c.tlc("TensorRangeLaws", workers=8)
    exe = cxx.build(c, "index", ["tensor_index_tp"])
    rng = random.Random(c.seed * 20)
    cases = []
    join = lambda *vs: " ".join(str(x) for v in vs for x in v)
    for dim in (1, 2, 3):
        top = {1: 9, 2: 4, 3: 3}[dim]
        sizes = list(itertools.product(range(1, top + 1), repeat=dim))
        cases += [f"size {dim} {join(n)}" for n in sizes]
        cases += [f"size {dim} {join([rng.randint(1, 7) for _ in range(dim)])}" for _ in range(20)]
        for _ in range(c.pick(60, 600)):
            n = [rng.choice([rng.randint(2, 1000), rng.randint(40000, 1000000), rng.randint(40000, 1000000)]) for _ in range(dim)]
            t = [rng.choice([0, m - 1, rng.randrange(m), rng.randrange(m)]) for m in n]
            cases.append(f"big {dim} {join(n, t)}")
        vecs = list(itertools.product(range({1: 6, 2: 4, 3: 3}[dim]), repeat=dim))
        pairs = list(itertools.product(vecs, repeat=2))
        rng.shuffle(pairs)
        pairs = pairs[:c.pick(500, 5000)]
        pairs += [(v, v) for v in vecs]
        pairs += [tuple(tuple(rng.randrange(0, 2000000) for _ in range(dim)) for _ in "ab") for _ in range(40)]
        cases += [f"pair {dim} {join(a, b)}" for a, b in pairs]
        rs = [(a, b) for a, b in itertools.product(vecs, repeat=2) if all(x <= y for x, y in zip(a, b))]
        rng.shuffle(rs)
        rs = rs[:c.pick(250, 3000)]
        for _ in range(c.pick(60, 400)):
            lo = [rng.choice([0, rng.randint(0, 5)]) for _ in range(dim)]
            rs.append((lo, [x + rng.choice([0, 1, 1, 2, 3, 4]) for x in lo]))
        cases += [f"range {dim} {join(a, b, [y + rng.randint(0, 2) + (y == 0) for y in b])}" for a, b in rs]
    res = cxx.run(exe, cases)
    recs = []
    for case, r in zip(cases, res):
        if "crash" in r:
            c.violation(f"the index library died on {case}: {r['crash']}", case)
            continue
        if r["k"] == "range":
            w = case.split()
            d = int(w[1])
            r["lo"], r["hi"] = [int(x) for x in w[2:2 + d]], [int(x) for x in w[2 + d:2 + 2 * d]]
        recs.append((case, r))
        c.sample({"case": case, "answer": r})
    for b in c.judge("TensorRangeJudge", [r for _, r in recs], cfg="Judge.cfg", chunk=1000):
        case, r = recs[b]
        c.violation(f"tensor index answers differ from the index space: {case}", {"case": case, "answer": r})
    c.extra["cases"] = len(cases)
    c.extra["rule"] = "every size, order and box of small index spaces, random larger ones, and spaces of up to 10^18 elements; TLC judges every answer"
    c.assumptions.append("g++ 13 with the address and undefined behaviour sanitizers stands for the users' compilers")


main("C20", run)
