"""Random uses of qugar's Python interface, as cases of drivers/py/pyapi.py with the facts the specification judges them by."""
import math
import implcases as ic
from domcases import index, tuples

DIM = {2: "2D", 3: "3D"}
NAMES = dict(Schoen="Schoen", SchoenIWP="Schoen_IWP", SchoenFRD="Schoen_FRD", FischerKochS="Fischer_Koch_S",
             SchwarzDiamond="Schwarz_Diamond", SchwarzPrimitive="Schwarz_Primitive")


def arr(rng, v, dt=None, sh=None, ro=.2):
    r = {"a": v, "dt": dt or rng.choice(["f8", "f8", "f4"]), "lay": rng.choice("ccsrk")}
    if sh:
        r.update(sh=sh, lay=rng.choice("csrfwk"))
    if rng.random() < ro:
        r["ro"] = 1
    return r


def exact(rng, v):
    """doubles: what is handed to the bindings directly"""
    return arr(rng, v, "f8")


def ids(rng, v, dt="i8"):
    return arr(rng, v, dt)


def num(rng, v):
    return rng.choice([v, v, {"f8": v}, {"f4": v}])


def call(rng, name, pos, kw):
    """some of the keyword arguments; the others are as documented"""
    pos = list(pos)
    rest = list(kw.items())
    while rest and rng.random() < .4:
        pos.append(rest.pop(0)[1])
    return {"call": name, "args": pos, "kw": dict(rest)}


def choose_bzr(rng, f, kw):
    """with the default: Bezier"""
    b = f.get("v", rng.choice("BG")) == "B"
    if not b or rng.random() < .5:
        kw["use_bzr"] = b
    return b


def opt(rng, v, default):
    """the documented default may be left out"""
    return v == default and rng.random() < .6


def affine(rng, t, d):
    name = "cpp.create_affine_transformation"
    k = t["k"]
    if k == "shift":
        return call(rng, name, [], dict(origin=exact(rng, t["o"])))
    if k == "scale":
        return call(rng, name, [], dict(origin=exact(rng, t["o"]), scale=rng.choice([t["sc"], float(t["sc"])])))
    if k == "coefs":
        c = exact(rng, [x / t["s"] for r in t["A"] for x in r] + [x / t["s"] for x in t["b0"]])
        c.pop("ro", 0)
        return call(rng, name, [], dict(coefs=c))
    kw = dict(origin=exact(rng, t["o"]), axis_x=exact(rng, t["a"]))
    if d == 3:
        kw["axis_y"] = exact(rng, t["b"])
    if t["sc"] != [1] * d or rng.random() < .3:
        kw.update({f"scale_{x}": float(s) for x, s in zip("xyz", t["sc"])})
    return call(rng, name, [], kw)


def backwards(rng, M, s):
    """the map whose inverse is M x + s"""
    d = len(s)
    adj, det = ic.inverse(M)
    c = exact(rng, [x / det for r in adj for x in r] + [-sum(a * b for a, b in zip(r, s)) / det for r in adj])
    c.pop("ro", 0)
    return {"call": "cpp.create_affine_transformation", "args": [c]}


def system(rng, f):
    s = f["sys"]
    kw = dict(origin=exact(rng, f["c"]))
    if s["k"] in ("axis", "round"):
        kw["axis"] = exact(rng, s["a"])
    if s["k"] == "two":
        kw.update(axis_x=exact(rng, s["a"]), axis_y=exact(rng, s["b"]))
    return call(rng, "cpp.create_ref_system", [], kw)


def recipe(rng, f, d):
    """-> description of the function, whether it is made in Bezier form ("" where that is not asked)"""
    k = f["k"]
    zero = [0] * d
    if k == "neg":
        return call(rng, "impl.create_negative", [], dict(func=recipe(rng, f["f"], d)[0])), ""
    if k in ("add", "sub"):
        return call(rng, f"impl.create_functions_{'addition' if k == 'add' else 'subtraction'}", [],
                    dict(lhs_func=recipe(rng, f["f"], d)[0], rhs_func=recipe(rng, f["g"], d)[0])), ""
    if k == "affine":
        T = backwards(rng, f["M"], f["s"])
        if f["f"]["k"] == "dimlinear" and rng.random() < .6:
            return call(rng, "impl.create_dim_linear", [], dict(coefs=coefs(rng, f["f"]["w"]), affine_trans=T)), ""
        if f["f"]["k"] == "square":
            return call(rng, "impl.create_box", [], dict(affine_trans=T, **({"dim": d} if rng.random() < .5 else {}))), ""
        return call(rng, "impl.create_affinely_transformed_functions", [], dict(func=recipe(rng, f["f"], d)[0], affine_transf=T)), ""
    if k == "square":
        return call(rng, "impl.create_box", [], {} if d == 2 and rng.random() < .5 else {"affine_trans": None, "dim": d}), ""
    if k == "dimlinear":
        return call(rng, "impl.create_dim_linear", [coefs(rng, f["w"])], {}), ""
    kw = {}
    if k == "sphere":
        name, kw = ("disk" if d == 2 else "sphere"), dict(radius=num(rng, f["r"]))
        if not opt(rng, f["c"], zero):
            kw["center"] = arr(rng, f["c"])
    elif k == "annulus":
        name, kw = k, dict(inner_radius=num(rng, f["ri"]), outer_radius=num(rng, f["ro"]))
        if not opt(rng, f["c"], zero):
            kw["center"] = arr(rng, f["c"])
    elif k == "cylinder":
        name, kw = k, dict(radius=num(rng, f["r"]), origin=arr(rng, f["c"]))
        kw["axis"] = None if opt(rng, f["a"], [0, 0, 1]) else arr(rng, f["a"])
    elif k == "torus":
        name, kw = k, dict(major_radius=num(rng, f["R"]), minor_radius=num(rng, f["r"]))
        if not opt(rng, f["c"], zero):
            kw["center"] = arr(rng, f["c"])
        if not opt(rng, f["a"], [0, 0, 1]):
            kw["axis"] = arr(rng, f["a"])
    elif k == "constant":
        name, kw = k, dict(value=num(rng, f["v"] / f["den"]), dim=d)
    elif k == "plane":
        name = "line" if d == 2 else "plane"
        kw["origin"] = None if opt(rng, f["c"], zero) else arr(rng, f["c"])
        kw["normal"] = None if opt(rng, f["n"], ic_unit(d)) else arr(rng, f["n"])
    else:
        name, kw = ("ellipse" if d == 2 else "ellipsoid"), dict(semi_axes=arr(rng, f["semi"]))
        if f["sys"]["k"] != "cart" or not opt(rng, f["c"], zero):
            kw["ref_system"] = system(rng, f)
    b = choose_bzr(rng, f, kw)
    pos = []
    if set(kw) >= {"center"} or k not in ("sphere", "annulus", "torus", "ellipsoid"):
        return call(rng, f"impl.create_{name}", pos, kw), b
    return {"call": f"impl.create_{name}", "args": pos, "kw": kw}, b


def ic_unit(d):
    return [1] + [0] * (d - 1)


def coefs(rng, w):
    return rng.choice([[float(x) for x in w], w, arr(rng, w)])


def fun_case(rng, op):
    """functions of the library"""
    d = rng.choice([2, 3])
    dt, lay = "f8", rng.choice("csrfwk")
    if op == "exact":
        pts = None
        while not pts:
            f, _ = ic.sized(rng, d, 2)
            pts = ic.close_by(rng, d, 5, f)
        if ic.bound(f, 3) < 4e4:
            dt = rng.choice(["f4", "f8"])
        return dict(op="fun", f=recipe(rng, f, d)[0], num=flat(pts), over=1, q=ic.den(f), dt=dt, lay=lay), dict(k=op, f=f, pts=pts, d=d)
    if op == "square":
        f = dict(k="square")
        if rng.random() < .7:
            M, s, _ = ic.backwards(rng, d)
            f = dict(k="affine", f=f, M=M, s=s)
        pts = ic.some(rng, d, 8, 3)
        return dict(op="fun", f=recipe(rng, f, d)[0], num=flat(pts), over=1, q=1, dt=rng.choice(["f4", "f8"]), lay=lay), dict(k=op, f=f, pts=pts, d=d)
    if op == "periodic":
        name = rng.choice(ic.SURFACES)
        m = [rng.choice([1, 1, 2, 3]) for _ in range(d)]
        z = rng.randint(-12, 12) if d == 2 else 0
        kw = dict(periods=rng.choice([m, [float(x) for x in m], arr(rng, m)]))
        if z or (d == 2 and rng.random() < .5):
            kw["z"] = z / 12
        pts = ic.some(rng, d, 4, 14)
        return (dict(op="fun", f=call(rng, f"impl.create_{NAMES[name]}", [], kw), num=flat(pts), over=12, q=8000, dt=dt, lay=lay, wave=1),
                dict(k=op, name=name, m=m, z=z, pts=pts, d=d))
    # "at": what is transformed, at the image of a point
    while True:
        t, _, S = ic.mapping(rng, d, 0)
        if t["k"] != "id" and ic.regular(t):
            break
    pts = None
    while not pts:
        f, _ = ic.sized(rng, d, 2)
        pts = f["k"] != "plane" and ic.close_by(rng, d, 4, f, lambda x: ic.image(t, x))
    A, b = matrix(t, d)
    img = [[sum(a * v for a, v in zip(r, x)) + c for r, c in zip(A, b)] for x in pts]
    g = call(rng, "impl.create_affinely_transformed_functions", [], dict(func=recipe(rng, f, d)[0], affine_transf=affine(rng, t, d)))
    return dict(op="fun", f=g, num=flat(img), over=S, q=ic.den(f), dt=dt, lay=lay), dict(k="at", f=f, t=t, S=S, pts=pts, img=img, d=d)


def matrix(t, d):
    """numerators of a map; the specification judges them as well"""
    k = t["k"]
    if k in ("shift", "scale"):
        return [[t["sc"] * (i == j) for j in range(d)] for i in range(d)], t["o"]
    if k == "coefs":
        return t["A"], t["b0"]
    a, sc = t["a"], t["sc"]
    if d == 2:
        return [[a[0] * sc[0], -a[1] * sc[1]], [a[1] * sc[0], a[0] * sc[1]]], [t["l"] * x for x in t["o"]]
    z = ic.cross(a, t["b"])
    y = ic.cross(z, a)
    return [[a[i] * sc[0] * t["n"], y[i] * sc[1], z[i] * sc[2] * t["l"]] for i in range(3)], [t["l"] * t["n"] * x for x in t["o"]]


def flat(pts):
    return [x for p in pts for x in p]


def get_case(rng):
    d = rng.choice([2, 3])
    f, _ = ic.leaf(rng, d, ["sphere", "ellipsoid", "constant", "plane"] + (["annulus"] if d == 2 else ["cylinder", "torus"]), True)
    S = ic.length(f["a"]) if "a" in f else f["len"] if f["k"] == "plane" else f.get("den", 1)
    r, bzr = recipe(rng, f, d)
    return dict(op="get", f=r, S=S), dict(k="get", f=f, S=S, bzr=bzr, d=d)


def err_case(rng):
    """arguments which creators reject, or not: a list of rules"""
    d = rng.choice([2, 3])
    rules = []
    bad = rng.random() < .6

    def size(want):
        n = want if not bad or rng.random() < .5 else rng.choice([x for x in (1, 2, 3, 4, 5) if x != want])
        rules.append(["size", n, [want]])
        return {"a": [rng.randint(1, 3) for _ in range(n)]}

    def positive():
        v = rng.randint(1, 3) if not bad or rng.random() < .5 else rng.choice([0, -1, -2])
        rules.append(["positive", v])
        return num(rng, v)
    k = rng.choice(["disk", "sphere", "ellipse", "ellipsoid", "cylinder", "annulus", "torus", "constant", "plane", "line", "dim_linear",
                    "box", "surface", "eval", "torus", "ellipsoid", "box"])
    kw = {}
    if k in ("disk", "sphere"):
        kw["radius"] = positive()
        if rng.random() < .7:
            kw["center"] = size(2 if k == "disk" else 3)
    elif k in ("ellipse", "ellipsoid"):
        n = 2 if k == "ellipse" else 3
        kw["semi_axes"] = size(n)
        if bad and rng.random() < .5:
            v = rng.choice([0, -1])
            a = kw["semi_axes"]["a"]
            a[rng.randrange(len(a))] = v
            rules.append(["positive", v])
    elif k == "cylinder":
        kw = dict(radius=positive(), origin=size(3), axis=None)
    elif k == "annulus":
        kw["inner_radius"] = positive()
        kw["outer_radius"] = positive()
        if all(r[1] > 0 for r in rules):
            rules[:] = [["positive", 1], ["positive", 3]]
            kw.update(inner_radius=1, outer_radius=3)
        if rng.random() < .7:
            kw["center"] = size(2)
    elif k == "torus":
        kw["major_radius"] = positive()
        kw["minor_radius"] = positive()
        if all(r[1] > 0 for r in rules):
            rules[:] = [["positive", 3], ["positive", 1]]
            kw.update(major_radius=3, minor_radius=1)
        if rng.random() < .5:
            kw["center"] = size(3)
        if rng.random() < .5:
            kw["axis"] = size(3)
    elif k == "constant":
        n = rng.choice([2, 3, 3, 1, 4, 0, 5])
        rules.append(["dim", n])
        kw = dict(value=1.5, dim=n)
    elif k in ("plane", "line"):
        n = 3 if k == "plane" else 2
        kw["origin"] = size(n) if rng.random() < .7 else None
        kw["normal"] = size(n) if rng.random() < .7 else None
    elif k == "dim_linear":
        n, want = rng.choice([4, 8, 8, 3, 6, 2, 16]), [4, 8]
        kw["coefs"] = {"a": [rng.randint(1, 3) for _ in range(n)]}
        if rng.random() < .5:
            kw["affine_trans"], want = affine(rng, dict(k="shift", o=[0] * d), d), [2 ** d]
        rules.append(["size", n, want])
    elif k == "box":
        T = rng.random() < .7
        n = rng.choice([d, d, 5 - d, 1, 4]) if rng.random() < .8 or not T else d
        kw["dim"] = n
        if T:
            kw["affine_trans"] = affine(rng, dict(k="shift", o=[0] * d), d)
            rules.append(["size", n, [d]])
        else:
            rules.append(["dim", n])
    elif k == "surface":
        n = rng.choice([2, 3, 3, 1, 4])
        kw["periods"] = rng.choice([{"a": [1] * n}, [1.0] * n])
        rules.append(["dim", n])
        if rng.random() < .5:
            kw["z"] = .5
            rules.append(["size", n, [2]])
        k = NAMES[rng.choice(ic.SURFACES)]
    else:
        n = rng.choice([d, d, 5 - d, 4, 1])
        f, _ = ic.leaf(rng, d)
        rules.append(["size", n, [d]])
        return (dict(op="err", f=recipe(rng, f, d)[0], pts={"a": [rng.randint(0, 2) for _ in range(3 * n)], "sh": [3, n]}, what=rng.choice(["eval", "grad"])),
                dict(k="err", rules=rules))
    return dict(op="err", f={"call": f"impl.create_{k}", "kw": kw}), dict(k="err", rules=rules)


# ---------------------------------------------------------------- boxes, grids, rules
def bbox_case(rng):
    d = rng.choice([2, 3])
    q = rng.choice([1, 4])
    lo = [rng.randint(-8, 8) for _ in range(d)]
    hi = [x + rng.randint(1, 9) for x in lo]
    v = [[x / q for x in c] for c in (lo, hi)]
    both = rng.choice([lambda x: x, lambda x: exact(rng, x)])
    return (dict(op="bbox", f=call(rng, "cpp.create_bound_box", [], dict(min_corner=both(v[0]), max_corner=both(v[1]))), q=q),
            dict(k="bbox", blo=lo, bhi=hi))


def breaks_of(rng, b, q):
    v = [[x / q for x in r] for r in b]
    return v if rng.random() < .3 else [exact(rng, r) for r in v]


def grid_recipe(rng, b, q):
    return call(rng, "cpp.create_cart_grid", [], dict(breaks=breaks_of(rng, b, q)))


def grid_case(rng):
    d = rng.choice([2, 3])
    q = 4
    n = [rng.randint(1, 4 if d == 2 else 3) for _ in range(d)]
    if rng.random() < .4:
        lo = [rng.randint(-8, 8) for _ in range(d)]
        w = [rng.randint(1, 6) for _ in range(d)]
        b = [[x + k * s for k in range(m + 1)] for x, s, m in zip(lo, w, n)]
        box = call(rng, "cpp.create_bound_box", [[x[0] / q for x in b], [x[-1] / q for x in b]], {})
        g = call(rng, "cpp.create_cart_grid", [], dict(bound_box=box, n_cells_dir=n))
    else:
        b = []
        for m in n:
            b.append([rng.randint(-8, 8)])
            for _ in range(m):
                b[-1].append(b[-1][-1] + rng.randint(1, 6))
        g = grid_recipe(rng, b, q)
    return dict(op="grid", f=g, q=q), dict(k="grid", b=b)


def gauss_case(rng):
    n = [rng.randint(1, 6 if d < 2 else 3) for d in range(rng.randint(1, 3))]
    return dict(op="gauss", n=n), dict(k="gauss", ng=n)


# ---------------------------------------------------------------- unfitted domains
SHAPES = {2: [(1, 1), (2, 1), (1, 2), (3, 2), (2, 3), (4, 3)], 3: [(1, 1, 1), (2, 1, 1), (1, 1, 2), (2, 2, 1), (1, 2, 2)]}


def lattice(breaks, d, a):
    """coordinate of the plane between micro cells a - 1 and a"""
    b = breaks[d]
    return b[(a - 1) // 2] if (a - 1) % 2 == 0 else (b[(a - 1) // 2] + b[(a + 1) // 2]) / 2


def halfspace(rng, dim, d, s, p, unit):
    """s * (x_d - p) < 0"""
    e = [0] * dim
    e[d] = s * rng.choice([1, 1, 2])
    o = [rng.randint(-2, 2) for _ in range(dim)]
    o[d] = p
    name = "line" if dim == 2 else "plane"
    how = rng.choice(["plain", "plain", "linear", "neg", "sum", "moved"])
    plain = lambda o, e, b: {"call": f"impl.create_{name}", "args": [arr(rng, o, "f8"), arr(rng, e)], "kw": {"use_bzr": b}}
    bzr = unit and rng.random() < .5
    if how == "linear":
        w = [s * ((j >> d & 1) - p) for j in range(2 ** dim)]
        return {"call": "impl.create_dim_linear", "args": [w]}
    if how == "neg":
        return {"call": "impl.create_negative", "args": [plain(o, [-x for x in e], bzr)]}
    if how == "sum":
        c = rng.choice([1, 2, -1])
        o[d] = p + c
        e = [s if k == d else 0 for k in range(dim)]
        op = rng.random() < .5
        k = {"call": "impl.create_constant", "args": [s * c if op else -s * c, dim], "kw": {"use_bzr": False}}
        return {"call": f"impl.create_functions_{'addition' if op else 'subtraction'}", "args": [plain(o, e, False), k]}
    if how == "moved":
        m = [rng.randint(-2, 2) for _ in range(dim)]
        t = dict(k="shift", o=m)
        return {"call": "impl.create_affinely_transformed_functions",
                "args": [plain([a - b for a, b in zip(o, m)], e, False), affine(rng, t, dim)]}
    return plain(o, e, bzr)


def shape(rng, dim, n, breaks, unit, kinds=("half", "half", "box"), inner=False):
    """-> recipe, bits"""
    sizes = [2 * k + 2 for k in n]
    bits = [0] * math.prod(sizes)
    if rng.choice(kinds) == "half":
        d, s = rng.randrange(dim), rng.choice([-1, 1])
        a = rng.randrange(2, sizes[d], 2) if inner else rng.randrange(1, sizes[d])
        for t in tuples(sizes):
            bits[index(sizes, t)] = int((t[d] < a) == (s == 1))
        return halfspace(rng, dim, d, s, lattice(breaks, d, a), unit), bits
    lo, hi = [], []
    for k in range(dim):
        a = sorted(rng.sample(range(1, sizes[k]), 2))
        lo.append(a[0])
        hi.append(a[1])
    out = rng.random() < .4
    for t in tuples(sizes):
        bits[index(sizes, t)] = int(all(a <= x < b for a, x, b in zip(lo, t, hi)) != out)
    x = [[lattice(breaks, k, v) for k, v in enumerate(c)] for c in (lo, hi)]
    mid, half = [(a + b) / 2 for a, b in zip(*x)], [(b - a) / 2 for a, b in zip(*x)]
    M = [[half[i] if i == j else 0 for j in range(dim)] for i in range(dim)]
    if rng.random() < .5:
        e = [[int(i == j) for j in range(dim)] for i in range(dim)]
        T = {"call": "cpp.create_affine_transformation", "args": [exact(rng, mid), *[exact(rng, v) for v in e[:dim - 1]], *half]}
    else:
        T = {"call": "cpp.create_affine_transformation", "args": [{"a": flat(M) + mid}]}
    f = {"call": "impl.create_box", "args": [T]}
    return ({"call": "impl.create_negative", "args": [f]} if out else f), bits


def breaks_on(rng, n, unit):
    b = []
    for k in n:
        if unit:
            w = [rng.choice([1 / 16, 1 / 8, 1 / 4]) for _ in range(k)]
            x = rng.randint(0, int((1 - sum(w)) * 32)) / 32
        else:
            w = [rng.choice([1 / 8, 1 / 4, 1 / 2, 1, 2]) for _ in range(k)]
            x = rng.randint(-8, 8) / 4
        b.append([x])
        for v in w:
            b[-1].append(b[-1][-1] + v)
    return b


def domain_case(rng):
    dim = rng.choice([2, 2, 3])
    n = list(rng.choice(SHAPES[dim]))
    unit = rng.random() < .4
    b = breaks_on(rng, n, unit)
    phi, bits = shape(rng, dim, n, b, unit)
    cells = math.prod(n)
    f = dict(k="domain", n=n, bits=bits, all=True, given=[], b=b)
    o = dict(op="domain", phi=phi, grid=grid_recipe(rng, b, 1))
    if rng.random() < .35:
        f.update(all=False, given=rng.sample(range(cells), rng.randint(0, cells)))
        o["given"] = f["given"] if rng.random() < .4 else ids(rng, f["given"])
    pairs = lambda: [[rng.randrange(cells), rng.randrange(2 * dim)] for _ in range(rng.randint(0, 10))]
    f.update(tc=rng.sample(range(cells), rng.randint(0, cells)), tf=pairs(), c=rng.sample(range(cells), rng.randint(1, cells)), f=pairs() or [[0, 0]],
             npts=rng.randint(1, 3), include=rng.random() < .5, exclude=rng.random() < .5)
    o.update(tc=ids(rng, f["tc"]), tfc=ids(rng, [x[0] for x in f["tf"]]), tff=ids(rng, [x[1] for x in f["tf"]], "i4"), c=ids(rng, f["c"]),
             fc=ids(rng, [x[0] for x in f["f"]]), ff=ids(rng, [x[1] for x in f["f"]], "i4"), npts=f["npts"], include=f["include"], exclude=f["exclude"])
    return o, f


def mesh_case(rng):
    dim = rng.choice([2, 2, 3])
    n = list(rng.choice(SHAPES[dim]))
    if rng.random() < .3:
        n = [n[0]] * dim
    unit = rng.random() < .3
    if unit:
        n = [rng.choice([1, 2, 4][:4 - dim]) for _ in n]
        lo, w = [0] * dim, [1 / k for k in n]
    else:
        lo = [rng.randint(-4, 4) / 2 for _ in n]
        w = [rng.choice([1 / 4, 1 / 2, 1, 2]) for _ in n]
    b = [[x + k * s for k in range(m + 1)] for x, s, m in zip(lo, w, n)]
    phi, bits = shape(rng, dim, n, b, unit)
    kw = {}
    dt = rng.choice(["f8", "f8", "f4"])
    if not unit or rng.random() < .5:
        kw.update(xmin=arr(rng, lo, dt), xmax=arr(rng, [x[-1] for x in b], dt))
    elif rng.random() < .5:
        kw[rng.choice(["xmin"])] = arr(rng, lo, dt)
        if dt == "f4":
            kw.pop("xmin")
    exclude = rng.random() < .6
    if not exclude or rng.random() < .5:
        kw["exclude_empty_cells"] = exclude
    deg = rng.randint(1, 3)
    if deg > 1 or rng.random() < .3:
        kw["degree"] = deg
    nn = n[0] if len(set(n)) == 1 and rng.random() < .6 else rng.choice([n, {"a": n, "dt": "i4"}])
    q = rng.randint(0, 5)
    return (dict(op="mesh", phi=phi, n=nn, args=[], kw=kw, seed=rng.randrange(10 ** 6), qdeg=q),
            dict(k="mesh", n=n, bits=bits, all=True, given=[], exclude=exclude, qdeg=q, b=b))


def reparam_case(rng):
    dim = rng.choice([2, 2, 3])
    n = list(rng.choice(SHAPES[dim][:4]))
    b = breaks_on(rng, n, True)
    d, s = rng.randrange(dim), rng.choice([-1, 1])
    a = rng.randrange(2, 2 * n[d] + 2, 2)
    e = [0] * dim
    e[d] = s
    o = [0] * dim
    o[d] = lattice(b, d, a)
    phi = {"call": f"impl.create_{'line' if dim == 2 else 'plane'}", "args": [arr(rng, o, "f8"), arr(rng, e)], "kw": {"use_bzr": False}}
    cells = math.prod(n)
    npts, levelset, merge = rng.randint(2, 4 if dim == 2 else 3), rng.random() < .4, rng.random() < .6
    c = dict(op="reparam", phi=phi, grid=grid_recipe(rng, b, 1), levelset=levelset, npts=npts, merge=merge)
    f = dict(k="reparam", n=n, dirn=d, sense=s, at=a, npts=npts, levelset=levelset, merge=merge, cells=list(range(cells)))
    if rng.random() < .5:
        f["cells"] = rng.sample(range(cells), rng.randint(1, cells))
        c["cells"] = ids(rng, f["cells"])
    return c, f


def drop(case):
    case[1].pop("b")
    return case


def plot_case(rng):
    """what is drawn of a domain or a mesh; coordinates as multiples of 1/32"""
    what = rng.choice(["cells", "facets", "quad", "quad", "grid"])
    mesh = rng.random() < .5
    o, f = mesh_case(rng) if mesh else domain_case(rng)
    if mesh:
        new = dict(n=o["n"], kw=o["kw"], seed=o["seed"])
    else:
        new = dict(grid=o["grid"], **({"given": o["given"]} if "given" in o else {}))
    flags = {k: rng.random() < .5 for k in ("cut", "full", "empty")}
    full = dict(cut=True, full=True, empty=False) | flags
    if rng.random() < .5:      # the documented defaults
        flags = {k: v for k, v in flags.items() if v == (k == "empty")}
    npts = rng.randint(1, 4)
    new.update(op="plot", what=what, phi=o["phi"], flags=flags, npts=npts, direct=rng.random() < .5)
    facts = dict(k="plot", what=what, n=f["n"], bits=f["bits"], all=f["all"], given=f["given"], mesh=mesh, exclude=f["exclude"] if mesh else False,
                 flags=full, npts=npts, b=[[int(x * 32) for x in v] for v in f["b"]])
    return new, facts


def shown_case(rng):
    o, f = reparam_case(rng)
    return (dict(op="shown", phi=o["phi"], grid=o["grid"], levelset=o["levelset"], npts=o["npts"]), dict(k="shown", n=f["n"], npts=o["npts"], levelset=o["levelset"]))


def case(rng, op):
    return {"plot": plot_case, "shown": shown_case, "get": get_case, "err": err_case, "bbox": bbox_case, "grid": grid_case, "gauss": gauss_case, "domain": lambda r: drop(domain_case(r)),
            "mesh": lambda r: drop(mesh_case(r)), "reparam": reparam_case}[op](rng) if op not in ("exact", "square", "periodic", "at") else fun_case(rng, op)
