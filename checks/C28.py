import itertools
import math
import random
from vc import main
import cxx
from domcases import join

SOURCES = ["bezier_tp", "bezier_tp_utils", "bezier_tp_utils_composition", "monomials_tp", "polynomial_tp", "tensor_index_tp",
           "bbox", "point", "impl_utils", "tolerance"]
LIMIT = 4e8  # numerators stay within TLC's integers and doubles stay exact


def orders(rng, d, total, most=5):
    o = [1] * d
    for _ in range(rng.randint(0, total)):
        k = rng.randrange(d)
        o[k] = min(most, o[k] + 1)
    return o


def poly(rng, d, r, total, basis=None, big=6, sign=None):
    o = orders(rng, d, total)
    n = math.prod(o)
    if sign:
        c = [[sign * rng.randint(1, big) for _ in range(r)] for _ in range(n)]
    else:
        c = [[rng.randint(-big, big) for _ in range(r)] for _ in range(n)]
    return {"basis": basis or rng.choice("BBM"), "order": o, "coefs": c}


def deg(p):
    return sum(p["order"]) - len(p["order"])


def words(p):
    return f"{p['basis']} {len(p['order'])} {len(p['coefs'][0])} {body(p)}"


def body(p):
    return join(p["order"], *p["coefs"])


def points(rng, d, n, den, lo=-1, hi=2):
    v = [[rng.randint(lo * den, hi * den) for _ in range(d)] for _ in range(n)]
    v[0] = [rng.choice([0, den]) for _ in range(d)]
    return v


def ptw(pts, den):
    return f"{den} {len(pts)} {join(*pts)}"


def bound(p, x, scale=1):
    """how large values (times a scale per degree) become for points up to x"""
    c = max(1, max(abs(v) for e in p["coefs"] for v in e))
    return c * math.prod(p["order"]) ** (p["basis"] == "M") * (scale * (2 * x + 1 if p["basis"] == "B" else max(x, 1))) ** deg(p)


def case(rng, op):
    """(words, facts)"""
    d, r = rng.choice([1, 2, 2, 3, 3]), rng.choice([1, 1, 2, 3])
    den = rng.choice([1, 2, 4])
    if op == "bern":
        n, der = rng.randint(1, 7), rng.randint(0, 4)
        x = rng.randint(-den, 2 * den)
        return f"bern {den ** (n - 1)} {n} {der} {den} {x}", dict(n=n, der=der, den=den, x=x)
    if op == "sign":
        p = poly(rng, d, 1, 5, "B", sign=rng.choice([1, -1, None, None]))
        pts = [list(x) for x in itertools.product(*[range(0, den + 1)] * d)]
        return f"sign 1 {words(p)}", dict(p=p, pts=pts, den=den)
    if op == "itv":
        p = poly(rng, d, r, 4, big=4)
        c = [rng.randint(0, 4) for _ in range(d)]
        point = rng.random() < .25
        w = [0 if point else rng.randint(0, 2) for _ in range(d)]
        corner = lambda: [a + rng.choice([-1, 1]) * b for a, b in zip(c, w)]
        inner = lambda: [a + rng.randint(-b, b) for a, b in zip(c, w)]
        pts = [corner() for _ in range(4)] + [inner() for _ in range(4)]
        return f"itv {4 ** deg(p)} {words(p)} {join(c)} {join(w)}", dict(p=p, pts=pts, den=4, point=point)
    if op == "comp":
        while True:
            s = rng.choice([1, 2, 3])
            p, q = poly(rng, d, r, 4, "B", 3), poly(rng, s, d, 3, "B", 2)
            if bound(p, bound(q, 2)) < LIMIT:
                break
        pts = points(rng, s, 8, 1)
        return f"comp 1 {words(p)} {s} {body(q)} {ptw(pts, 1)}", dict(p=p, q=q, pts=pts, den=1)
    if op == "rescale":
        p = poly(rng, d, 1, 3, "B", 4)
        lo = [rng.choice([0, 0, -1, 1, 2]) for _ in range(d)]
        hi = [x + rng.choice([1, 2, 2, 3]) for x in lo]
        pts = points(rng, d, 6, 2)
        return f"rescale {4 ** deg(p)} {words(p)} {join(lo)} {join(hi)} {ptw(pts, 2)}", dict(p=p, lo=lo, hi=hi, pts=pts, den=2)
    if op in ("add", "sub", "mul"):
        p, q = (poly(rng, d, r, 3, "B") for _ in range(2))
        if rng.random() < .3:
            q["order"], q["coefs"] = p["order"], [rng.sample(v, len(v)) for v in p["coefs"]]
        o = [(a + b - 1) if op == "mul" else max(a, b) for a, b in zip(p["order"], q["order"])]
        pts = points(rng, d, 6, den)
        return f"{op} {den ** (sum(o) - d)} {words(p)} {body(q)} {ptw(pts, den)}", dict(p=p, q=q, pts=pts, den=den)
    if op == "raise":
        p = poly(rng, d, r, 3, "B")
        to = [a + rng.choice([0, 0, 1, 2]) for a in p["order"]]
        while sum(to) - d > 6:
            to = [max(a, b - 1) for a, b in zip(p["order"], to)]
        pts = points(rng, d, 6, den)
        return f"raise {den ** (sum(to) - d)} {words(p)} {join(to)} {ptw(pts, den)}", dict(p=p, to=to, pts=pts, den=den)
    basis = {"negate": "B", "bezier": "M", "deriv": "M"}.get(op)
    if op == "facet":
        d = rng.choice([2, 3])
    p = poly(rng, d, r, 5, basis)
    S = den ** deg(p)
    if op == "store":
        return f"store 1 {words(p)}", dict(p=p)
    if op == "facet":
        k = rng.randrange(2 * d)
        pts = points(rng, d - 1, 5, den)
        return f"facet {S} {words(p)} {k} {ptw(pts, den)}", dict(p=p, id=k, pts=pts, den=den)
    pts = points(rng, d, 6, den)
    if op == "deriv":
        k = [j for j in range(d) if p["order"][j] > 1]
        if not k:
            return case(rng, op)
        k = rng.choice(k)
        return f"deriv {S} {words(p)} {k} {ptw(pts, den)}", dict(p=p, dir=k + 1, pts=pts, den=den)
    if op == "lin":
        a, s = rng.randint(-3, 3), [rng.randint(-4, 4) for _ in range(r)]
        return f"lin {S} {words(p)} {a} {join(s)} {ptw(pts, den)}", dict(p=p, a=a, shift=s, pts=pts, den=den)
    if op == "image":
        a, c = ([rng.randint(-3, 3) for _ in range(r)] for _ in range(2))
        k = [rng.choice([1, 2]) for _ in range(r)]
        b, e = [x + y for x, y in zip(a, k)], [x + y * rng.choice([1, 2, 3]) for x, y in zip(c, k)]
        return f"image {S} {words(p)} {join(a, b, c, e)} {ptw(pts, den)}", dict(p=p, old=[a, b], new=[c, e], pts=pts, den=den)
    return f"{op} {S} {words(p)} {ptw(pts, den)}", dict(p=p, pts=pts, den=den)


def run(c):
    c.tlc("PolynomialLaws", "PolynomialLaws.cfg" if not c.thorough else None, workers=6,
          **({"cfg_text": open_cfg(5, 4)} if c.thorough else {}))
    exe = cxx.build(c, "poly", SOURCES)
    rng = random.Random(c.seed)
    n = c.pick(1, 8)
    plan = dict(eval=260, store=60, itv=150, add=120, sub=120, mul=160, comp=200, rescale=80, bern=150, sign=60, negate=30,
                facet=140, deriv=80, lin=60, image=60, bezier=120)
    plan["raise"] = 100
    cases, facts = [], []
    for op, k in plan.items():
        for _ in range(k * n):
            w, f = case(rng, op)
            cases.append(w)
            facts.append({"k": op, **f})
    recs = []
    for w, f, r in zip(cases, facts, cxx.run(exe, cases)):
        if "crash" in r:
            c.violation(f"the polynomial library died on {w[:120]}: {r['crash']}", w)
            continue
        recs.append((w, {**f, **r}))
        if r["k"] in ("comp", "facet"):
            c.sample({"case": w, "answer": r})
    for b in c.judge("PolynomialJudge", [r for _, r in recs], cfg="Judge.cfg", chunk=100):
        w, r = recs[b]
        c.violation(f"{r['k']} is not what it says: {w[:160]}", {"case": w, "answer": r})
    c.extra["cases"] = len(cases)
    c.extra["by kind"] = {k: v * n for k, v in plan.items()}
    c.extra["rule"] = "integer coefficients and dyadic points, where values are exact; TLC computes them from the definition"


def open_cfg(degree, den):
    from vc import SPEC
    return (SPEC / "PolynomialLaws.cfg").read_text().replace("MaxDegree = 4", f"MaxDegree = {degree}").replace("MaxDen = 3", f"MaxDen = {den}")


main("C28", run)
