import random
from vc import main
import cxx

U = 2048


def run(c):
    c.tlc("CartGridLaws", workers=8)
    exe = cxx.build(c, "grid", ["tensor_index_tp", "cart_grid_tp", "bbox", "tolerance", "point"])
    rng = random.Random(c.seed * 21)
    cases, facts = [], []

    def add(text, **kw):
        cases.append(text)
        facts.append(kw)
    join = lambda *vs: " ".join(str(x) for v in vs for x in v)

    def breaks(dim, most):
        b = []
        for _ in range(dim):
            v, n = [rng.randint(-3, 3) * U // 2], rng.randint(1, most)
            for _ in range(n):
                v.append(v[-1] + rng.choice([U // 4, U // 2, U, 3 * U]))
            b.append(v)
        return b
    bj = lambda b: " ".join(join([len(v)], v) for v in b)
    for _ in range(c.pick(80, 600)):
        dim = rng.choice([2, 3])
        b = breaks(dim, 4 if dim == 2 else 3)
        add(f"grid {dim} {bj(b)}", b=b)
        n = [rng.randint(1, 4) for _ in range(dim)]
        n01 = [rng.choice([1, 2, 4]) for _ in range(dim)]
        lo = [rng.randint(-9, 9) * 64 for _ in range(dim)]
        hi = [x + k * rng.choice([64, 128, 512]) for x, k in zip(lo, n01)]
        add(f"even {dim} {join(lo, hi, n01)}", lo=lo, hi=hi, nn=n01)
        del n
        tol = rng.choice([0, 1, 4, 8])
        pts = []
        for _ in range(rng.randint(5, 25)):
            p = []
            for v in b:
                z = rng.random()
                if z < .6:
                    x = rng.choice(v) + rng.choice([0, 0, tol, -tol, tol // 2, -(tol // 2), tol + 1, -tol - 1, 3 * tol + 2])
                else:
                    x = rng.randint(v[0], v[-1])
                p.append(min(max(x, v[0] - tol), v[-1] + tol))
            pts.append(p)
        add(f"points {dim} {bj(b)} {tol} {len(pts)} {join(*pts)}", b=b, t=tol, pts=pts)
        for _ in range(3):
            lo = [rng.randint(0, len(v) - 2) for v in b]
            hi = [rng.randint(x + 1, len(v) - 1) for x, v in zip(lo, b)]
            add(f"sub {dim} {bj(b)} {join(lo, hi)}", b=b, lo=lo, hi=hi)
    # grids with more cells than fit in 32 bits
    wide = [[60000, 50000], [1300, 1310, 1290], [200000, 90000], [900000, 3000], [60, 70000, 1500]]
    wide += [[rng.choice([2, 90, 1400, 40000, 150000]) for _ in range(rng.choice([2, 3]))] for _ in range(c.pick(6, 40))]
    for n in wide:
        ts = [[rng.choice([0, m - 1, rng.randrange(m), rng.randrange(m)]) for m in n] for _ in range(12)] + [[m - 1 for m in n]]
        add(f"wide {len(n)} {join(n)} {len(ts)} {join(*ts)}", nn=n, ts=ts)
    for _ in range(c.pick(150, 1500)):
        dim = rng.choice([2, 3])
        g = lambda: [rng.randint(-40, 40) * 128 for _ in range(dim)]
        lo, lo2, p = g(), g(), g()
        hi = [x + rng.choice([128, 256, 512, 1024, 2048]) for x in lo]
        hi2 = [x + rng.choice([0, 128, 256, 512, 2048]) for x in lo2]
        d = rng.randint(0, 9)
        add(f"box {dim} {join(lo, hi, lo2, hi2, p)} {d}", lo=lo, hi=hi, lo2=lo2, hi2=hi2, p=p, delta=d)
    for _ in range(c.pick(800, 8000)):
        t, r = rng.choice([0, 1, 2, 3, 512, 1024]), rng.choice([0, 1, 512, 1024])
        a = rng.randint(-12, 12) * rng.choice([1, 4])
        b = rng.choice([-1, 1]) * a + rng.randint(-6, 6) if rng.random() < .6 else rng.randint(-12, 12)
        add(f"tol {t} {a} {b} {r}", t=t, a=a, b=b, r=r)
    for _ in range(c.pick(150, 1500)):
        t = rng.choice([0, 1, 2, 5])
        v = [rng.randint(-15, 15) for _ in range(rng.randint(0, 9))]
        add(f"unique {t} {len(v)} {join(v)}", t=t, v=v)
        dim = rng.choice([2, 3])
        k = rng.choice([1, 2, 3])
        pts = [[64 * rng.randrange(k) + rng.choice([0, 0, 1, 2]) * (t > 1) for _ in range(dim)] for _ in range(rng.randint(0, 12))]
        add(f"same {dim} {t} {len(pts)} {join(*pts)}", t=t, pts=pts)
    res = cxx.run(exe, cases)
    recs = []
    for case, f, r in zip(cases, facts, res):
        if "crash" in r:
            c.violation(f"the grid library died on {case[:120]}: {r['crash']}", case)
            continue
        recs.append((case, {**f, **r}))
        if r["k"] in ("points", "same"):
            c.sample({"case": case, "answer": r})
    for b in c.judge("CartGridJudge", [r for _, r in recs], cfg="Judge.cfg", chunk=400):
        case, r = recs[b]
        c.violation(f"grid answers differ from the Cartesian grid: {case[:160]}", {"case": case, "answer": r})
    c.extra["cases"] = len(cases)
    c.extra["rule"] = "grids, boxes, tolerances and points on a dyadic lattice, where reals are exact; TLC judges every answer"
    c.assumptions.append("coincidence of points is judged where closeness is transitive in every coordinate")


main("C21", run)
