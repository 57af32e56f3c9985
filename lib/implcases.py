"""Random implicit functions, affine maps and reference systems of ImplFuncs.tla, as cases of drivers/cxx/implfuncs.cpp."""
import math
from domcases import join

FLAT = [[3, 4], [4, -3], [-4, 3], [0, 2], [-1, 0], [1, 0], [5, -12], [0, -1], [-3, -4]]
AXES = [[1, 2, 2], [2, -1, 2], [-2, 2, 1], [0, 3, 4], [0, 0, 1], [0, 0, -2], [1, 0, 0], [-2, 0, 0], [2, 3, 6], [0, 1, 0], [0, -3, 0], [4, 0, -3]]
SLANT = [[1, 1, 0], [1, -1, 1], [1, 2, 0], [0, 1, -1], [2, 1, 1], [20, 1, 0], [-20, 0, 1]]
SURFACES = ["Schoen", "SchoenIWP", "SchoenFRD", "FischerKochS", "SchwarzDiamond", "SchwarzPrimitive"]
LIMIT = 2e7


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def n2(a):
    return sum(v * v for v in a)


def length(a):
    r = math.isqrt(n2(a))
    return r if r * r == n2(a) else 0


def ints(rng, n, r):
    return [rng.randint(-r, r) for _ in range(n)]


def pair(rng, exact=False):
    """two directions that are not parallel"""
    while True:
        a, b = rng.choice(AXES + ([] if exact else SLANT[:5])), ints(rng, 3, 2)
        z = cross(a, b)
        if any(z) and (not exact or length(z)) and n2(z) < 200:
            return a, b


def inverse(M):
    if len(M) == 2:
        (a, b), (c, d) = M
        return [[d, -b], [-c, a]], a * d - b * c
    adj = [[0] * 3 for _ in range(3)]
    for i in range(3):
        for j in range(3):
            r, s = [k for k in range(3) if k != i], [k for k in range(3) if k != j]
            adj[j][i] = (-1) ** (i + j) * (M[r[0]][s[0]] * M[r[1]][s[1]] - M[r[0]][s[1]] * M[r[1]][s[0]])
    return adj, sum(M[0][k] * adj[k][0] for k in range(3))


def backwards(rng, d):
    """(M, s, words of the map whose inverse is M x + s)"""
    while True:
        M, s = [ints(rng, d, 2) for _ in range(d)], ints(rng, d, 2)
        adj, det = inverse(M)
        if det:
            break
    if rng.random() < .4:
        return M, s, f"inv coefs {join(*M)} {join(s)} 1"
    return M, s, f"coefs {join(*adj)} {join([-sum(a * b for a, b in zip(r, s)) for r in adj])} {det}"


def leaf(rng, d, kinds=None, exact=False):
    """(function, words)"""
    k = rng.choice(kinds or (["sphere", "ellipsoid", "annulus", "constant", "plane", "dimlinear"] if d == 2 else
                             ["sphere", "ellipsoid", "cylinder", "torus", "constant", "plane", "dimlinear"]))
    c, v = ints(rng, d, 2), rng.choice("BG")
    axes = AXES if exact else AXES + SLANT[:5]
    if k == "sphere":
        n = rng.choice([1, 2, 2])
        c = c if n == 2 else [0] * d
        r = rng.randint(1, 3)
        return dict(k=k, c=c, r=r), f"{k} {v} {n} {r} {join(c) if n == 2 else ''}"
    if k == "annulus":
        n = rng.choice([2, 3, 3])
        c = c if n == 3 else [0] * d
        ri = rng.randint(1, 2)
        ro = ri + rng.randint(1, 2)
        return dict(k=k, c=c, ri=ri, ro=ro, v=v), f"{k} {v} {n} {ri} {ro} {join(c) if n == 3 else ''}"
    if k in ("cylinder", "torus"):
        m = 1 if k == "cylinder" else 2
        n = rng.choice([0, 1, 2, 2, 2])
        a = rng.choice(axes) if n == 2 else [0, 0, 1]
        c = c if n else [0] * 3
        r = rng.randint(1, 2)
        f = dict(k=k, c=c, a=a, r=r, v=v)
        if k == "torus":
            f["R"] = r + rng.randint(1, 2)
        return f, f"{k} {v} {n + m} {f['R'] if k == 'torus' else ''} {r} {join(c) if n else ''} {join(a) if n == 2 else ''}"
    if k == "constant":
        if rng.random() < .2:
            return dict(k=k, v=1, den=2), f"{k} {v} 0"
        x, den = rng.randint(-9, 9), rng.choice([1, 2, 4])
        return dict(k=k, v=x, den=den), f"{k} {v} 1 {x} {den}"
    if k == "plane":
        if rng.random() < .1:
            return dict(k=k, c=[0] * d, n=[1] + [0] * (d - 1), len=1), f"{k} {v} 0"
        n = rng.choice(FLAT if d == 2 else AXES)
        return dict(k=k, c=c, n=n, len=length(n)), f"{k} {v} 2 {join(c)} {join(n)}"
    if k == "dimlinear":
        w = ints(rng, 2 ** d, 6)
        f, t = dict(k=k, w=w), f"{k} 1 {join(w)}"
        if rng.random() < .4:
            M, s, words = backwards(rng, d)
            return dict(k="affine", f=f, M=M, s=s), f"{k} 2 {join(w)} {words}"
        return f, t
    semi = [rng.randint(1, 3) for _ in range(d)]
    s = rng.choice(["default", "cart", "axis", "axis"] if d == 2 else ["default", "cart", "two", "two", "round"])
    if s == "default":
        return dict(k=k, c=[0] * d, semi=semi, sys=dict(k="cart")), f"{k} {v} 1 {join(semi)}"
    if s == "cart":
        return dict(k=k, c=c, semi=semi, sys=dict(k=s)), f"{k} {v} 2 {join(semi)} cart {join(c)}"
    if s == "axis":
        a = rng.choice(FLAT[:6] + [[1, 1], [-1, 2]])
        return dict(k=k, c=c, semi=semi, sys=dict(k=s, a=a)), f"{k} {v} 2 {join(semi)} axis {join(c)} {join(a)}"
    if s == "two":
        while True:
            a, b = pair(rng)
            if n2(a) ** 2 * n2(cross(a, b)) ** 2 < 2000:
                break
        return dict(k=k, c=c, semi=semi, sys=dict(k=s, a=a, b=b)), f"{k} {v} 2 {join(semi)} two {join(c)} {join(a)} {join(b)}"
    semi[1] = semi[0]
    a = rng.choice(AXES[:8] + SLANT)
    if n2(a) > 50:
        semi = [1, 1, 2]
    return dict(k=k, c=c, semi=semi, sys=dict(k="round", a=a)), f"{k} {v} 2 {join(semi)} axis {join(c)} {join(a)}"


def func(rng, d, depth=2):
    p = rng.random()
    if depth == 0 or p < .55:
        while True:
            f, w = leaf(rng, d)
            if depth == 2 or f["k"] != "plane":   # planes may be scaled
                return f, w
    f, w = func(rng, d, depth - 1)
    while f["k"] == "plane":
        f, w = func(rng, d, depth - 1)
    if p < .75:
        M, s, t = backwards(rng, d)
        return dict(k="affine", f=f, M=M, s=s), f"affine {w} {t}"
    if p < .82:
        return dict(k="neg", f=f), f"neg {w}"
    g, u = func(rng, d, 0)
    op = rng.choice(["add", "sub"])
    return dict(k=op, f=f, g=g), f"{op} {w} {u}"


def den(f):
    k = f["k"]
    if k in ("cylinder", "torus"):
        return n2(f["a"])
    if k == "ellipsoid":
        s, d = f["sys"], len(f["c"])
        if s["k"] == "round":
            return n2(s["a"]) * f["semi"][0] ** 2 * f["semi"][2] ** 2
        r = math.prod(f["semi"]) ** 2
        if s["k"] == "axis":
            r *= n2(s["a"]) ** 2
        if s["k"] == "two":
            z = cross(s["a"], s["b"])
            r *= n2(s["a"]) * n2(z) * n2(cross(z, s["a"]))
        return r
    if k == "constant":
        return f["den"]
    if k == "plane":
        return f["len"]
    if k in ("neg", "affine"):
        return den(f["f"])
    return den(f["f"]) * den(f["g"]) if k in ("add", "sub") else 1


def bound(f, x):
    """how large numerators become for coordinates up to x"""
    k = f["k"]
    if k == "affine":
        return bound(f["f"], max(sum(map(abs, r)) for r in f["M"]) * x + 2)
    if k == "neg":
        return bound(f["f"], x)
    if k in ("add", "sub"):
        return bound(f["f"], x) * den(f["g"]) + bound(f["g"], x) * den(f["f"])
    q = 3 * (x + 2) ** 2
    if k in ("torus", "annulus"):
        return den(f) * (q + 25) ** 2
    if k == "dimlinear":
        return 6 * (2 * x + 1) ** 3
    if k == "constant":
        return 10
    if k == "ellipsoid":
        return den(f) * q * (n2(f["sys"]["a"]) if f["sys"]["k"] == "round" else 1)
    return den(f) * q * (25 if k == "plane" else 1)


def sized(rng, d, x):
    while True:
        f, w = func(rng, d)
        if bound(f, x + 2) < LIMIT:
            return f, w


def near(f, x):
    """Bezier forms of degree four lose digits away from the unit domain: no further than this"""
    k = f["k"]
    if k == "affine":
        return near(f["f"], [sum(a * b for a, b in zip(r, x)) + s for r, s in zip(f["M"], f["s"])])
    if k == "neg":
        return near(f["f"], x)
    if k in ("add", "sub"):
        return near(f["f"], x) and near(f["g"], x)
    return f.get("v") != "B" or k not in ("torus", "annulus") or max(map(abs, x)) <= (3 if k == "torus" else 8)


def close_by(rng, d, n, f, at=lambda x: x):
    """points where f can be judged, or None"""
    pts = []
    for _ in range(20 * n):
        x = ints(rng, d, 2)
        if near(f, at(x)):
            pts.append(x)
            if len(pts) == n:
                return pts


def image(t, x):
    """where a map takes a point, roughly"""
    k = t["k"]
    if k == "mul":
        return image(t["t"], image(t["u"], x))
    if k in ("shift", "scale"):
        return [t["sc"] * a + b for a, b in zip(x, t["o"])]
    if k == "coefs":
        return [(sum(a * b for a, b in zip(r, x)) + c) / t["s"] for r, c in zip(t["A"], t["b0"])]
    if k == "rot":
        return [sum(abs(a) * b for a, b in zip(x, t["sc"])) + abs(b) for b in t["o"]]
    return x


def mapping(rng, d, depth=1):
    """(map, words, denominator)"""
    k = rng.choice(["id", "shift", "scale", "rot", "rot", "rot", "coefs"] + ["mul"] * 3 * depth)
    o = ints(rng, d, 3)
    if k == "id":
        return dict(k=k), k, 1
    if k in ("shift", "scale"):
        s = 1 if k == "shift" else rng.randint(1, 3)
        return dict(k=k, o=o, sc=s), f"{k} {join(o)} {s if k == 'scale' else ''}", 1
    if k == "coefs":
        A, s = [ints(rng, d, 3) for _ in range(d)], rng.choice([1, 2, 4])
        return dict(k=k, A=A, b0=o, s=s), f"coefs {join(*A)} {join(o)} {s}", s
    if k == "mul":
        t, a, s = mapping(rng, d, 0)
        u, b, r = mapping(rng, d, 0)
        return dict(k=k, t=t, u=u), f"mul {a} {b}", s * r
    scales = [rng.randint(1, 3) for _ in range(d)] if rng.random() < .6 else None
    sc = scales or [1] * d
    if d == 2:
        a = rng.choice(FLAT)
        return dict(k=k, o=o, a=a, l=length(a), sc=sc), f"{'rots' if scales else 'rot'} {join(o)} {join(a)} {join(scales or [])}", length(a)
    a, b = pair(rng, True)
    z, n = length(a), length(cross(a, b))
    return dict(k=k, o=o, a=a, b=b, l=z, n=n, sc=sc), f"{'rots' if scales else 'rot'} {join(o)} {join(a)} {join(b)} {join(scales or [])}", z * n


def regular(t):
    return all(map(regular, (t["t"], t["u"]))) if t["k"] == "mul" else t["k"] != "coefs" or inverse(t["A"])[1] != 0


def some(rng, d, n, r):
    return [ints(rng, d, r) for _ in range(n)]


def box(rng, d):
    """middle, half lengths, points of a box"""
    c, r = ints(rng, d, 2), [rng.choice([0, 1, 1]) for _ in range(d)]
    if rng.random() < .2:
        r = [0] * d
    return c, r, [[a + rng.randint(-b, b) for a, b in zip(c, r)] for _ in range(6)]


def case(rng, op):
    """(words, facts)"""
    d = rng.choice([2, 3])
    if op == "exact":
        pts = None
        while not pts:
            f, w = sized(rng, d, 2)
            pts = close_by(rng, d, 5, f)
        return f"f {d} {den(f)} {w} 1 {len(pts)} {join(*pts)}", dict(f=f, pts=pts)
    if op in ("square", "sqitv"):
        f, w = dict(k="square"), "square 0"
        if rng.random() < .7:
            M, s, t = backwards(rng, d)
            f, w = dict(k="affine", f=f, M=M, s=s), f"square 1 {t}"
        if op == "sqitv":
            c, r, pts = box(rng, d)
            return f"i {d} 1 {w} 1 {join(c)} {join(r)}", dict(f=f, pts=pts, point=not any(r))
        pts = some(rng, d, 8, 3)
        return f"g {d} 1 {w} 1 {len(pts)} {join(*pts)}", dict(f=f, pts=pts)
    if op == "itv":
        f, w = sized(rng, d, 3)
        c, r, pts = box(rng, d)
        return f"i {d} {den(f)} {w} 1 {join(c)} {join(r)}", dict(f=f, pts=pts, point=not any(r))
    if op in ("periodic", "pitv"):
        name, n = rng.choice(SURFACES), rng.choice([0, 1, 1, 1])
        m = [rng.choice([1, 1, 2, 3]) for _ in range(d)] if n else [1] * d
        z = rng.randint(-12, 12) if n and d == 2 else 0
        w = f"tpms {name} {n} {join(m) if n else ''} {z if n and d == 2 else ''}"
        f = dict(name=name, m=m, z=z)
        if op == "periodic":
            pts = some(rng, d, 4, 14)
            return f"F {d} 8000 {w} 12 {len(pts)} {join(*pts)}", dict(pts=pts, **f)
        c, r = ints(rng, d, 12), [rng.choice([0, 1]) for _ in range(d)]
        if rng.random() < .2:
            r = [0] * d
        pts = [[a + rng.randint(-b, b) for a, b in zip(c, r)] for _ in range(5)]
        return f"I {d} 8000 {w} 12 {join(c)} {join(r)}", dict(pts=pts, point=not any(r), **f)
    if op == "map":
        t, w, S = mapping(rng, d)
        pts = some(rng, d, 5, 3)
        return f"map {d} {S} {w} 1 {len(pts)} {join(*pts)}", dict(t=t, S=S, d=d, pts=pts)
    if op in ("back", "at"):
        while True:
            t, w, S = mapping(rng, d)
            if regular(t):
                break
        if op == "back":
            pts = some(rng, d, 4, 2)
            return f"back {d} 1 {w} 1 {len(pts)} {join(*pts)}", dict(pts=pts)
        pts = None
        while not pts:
            f, u = sized(rng, d, 2)
            pts = f["k"] != "plane" and close_by(rng, d, 4, f, lambda x: image(t, x))
        return f"at {d} {den(f)} {w} {u} 1 {len(pts)} {join(*pts)}", dict(f=f, pts=pts)
    if op == "sys":
        o, k = ints(rng, d, 3), rng.choice(["default", "cart", "axis", "axis"] + ["two"] * 2 * (d == 3))
        if k in ("default", "cart"):
            o = o if k == "cart" else [0] * d
            return f"sys {d} 1 {k} {join(o) if k == 'cart' else ''} {join([0] * d)}", dict(d=d, S=1, sys="cart", at=o)
        if k == "axis":
            a = rng.choice(FLAT if d == 2 else AXES + SLANT)
            S = length(a)
            if not S:
                return f"around 3 1 {join(a)}", dict(op="around")
            f = dict(d=d, S=S, sys=k, at=o, a=a)
            return f"sys {d} {S} axis {join(o)} {join(a)} {join(a)}", f
        a, b = pair(rng, True)
        z, n = length(a), length(cross(a, b))
        return f"sys 3 {z * n} two {join(o)} {join(a)} {join(b)} {join(a)}", dict(d=3, S=z * n, sys=k, at=o, a=a, b=b, l=z, n=n)
    if op == "around":
        a = rng.choice([[20000, 1, 0], [-30000, 0, 1], [1, 0, 0], [-2, 0, 0], [20000, -1, 1]] * 2 + AXES + SLANT + [ints(rng, 3, 9) for _ in range(8)])
        return (f"around 3 1 {join(a)}", {}) if any(a) else case(rng, op)
    f, w = leaf(rng, d, ["sphere", "ellipsoid", "constant", "plane"] + (["annulus"] if d == 2 else ["cylinder", "torus"]), True)
    S = length(f["a"]) if "a" in f else f["len"] if f["k"] == "plane" else f.get("den", 1)
    return f"get {d} {S} {w}", dict(f=f, S=S)
