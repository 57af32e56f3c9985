import json
import shimlib
from vc import main

#        family cell degree lvariant dvariant discontinuous
KEYS = {
    "p1": [1, 2, 1, 2, 0, 0], "p2": [1, 2, 2, 2, 0, 0], "q1": [1, 4, 1, 2, 0, 0],
    "p3w": [1, 2, 3, 2, 0, 0], "p3e": [1, 2, 3, 1, 0, 0], "p1d": [1, 2, 1, 2, 0, 1],
    "d2s": [8, 4, 2, 0, 4, 1], "d2g": [8, 4, 2, 0, 6, 1], "rt": [2, 2, 1, 11, 0, 0],
    "ned": [3, 2, 1, 11, 0, 0], "h1": [1, 5, 1, 2, 0, 0],
    "xdeg": [1, 2, -1, 2, 0, 0], "xvar": [1, 2, 2, 8, 0, 0], "xfam": [77, 2, 1, 2, 0, 0],
}
GOOD = [k for k in KEYS if not k.startswith("x")]


def setof(xs):
    return "{" + ", ".join(f'"{x}"' for x in xs) + "}"


def consts(keys, good, n):
    return (f'CONSTANTS\n  Types = {{"f64", "f32"}}\n  Keys = {setof(keys)}\n  GoodKeys = {setof(good)}\n'
            f'  MaxOps = {n}\nCHECK_DEADLOCK FALSE\n')


def accepted(k):
    import basix
    import numpy as np
    try:
        e = basix.create_element(basix.ElementFamily(k[0]), basix.CellType(k[1]), k[2], basix.LagrangeVariant(k[3]), basix.DPCVariant(k[4]),
                                 bool(k[5]), dtype=np.float32)
        x = np.array([[0.11, 0.23, 0.31], [0.4, 0.07, 0.19]], dtype=np.float32)[:, :len(basix.topology(e.cell_type)) - 1]
        v = e.tabulate(2, np.ascontiguousarray(x))
        return bool(np.isfinite(v).all() and np.abs(v).max() < 1e4)      # some iso elements are singular in single precision
    except Exception:
        return False


def crowd(rng, n):
    """Many elements at once: accepted parameter sets with all their accepted one-parameter variations."""
    dom = [[1, 2, 3, 4, 5, 6, 8, 9, 10, 12, 13], [1, 2, 4, 3, 5], [0, 1, 2, 3, 4], [0, 1, 2, 3, 8, 11], [0, 1, 2, 4, 5, 6], [0, 1]]
    out = []
    while len(out) < n:
        k = [rng.choice(d) for d in dom]
        if k[1] in (3, 5):
            k[2] = min(k[2], 2)
        if k in out or not accepted(k):
            continue
        out.append(k)
        for i in range(6):
            for v in rng.sample(dom[i], min(4, len(dom[i]))):
                q = list(k)
                q[i] = v
                if q not in out and (q[1] not in (3, 5) or q[2] < 3) and accepted(q):
                    out.append(q)
    return out


def crowds(c, lib, rng):
    for r in range(c.pick(3, 12)):
        keys = {f"k{i}": k for i, k in enumerate(crowd(rng, c.pick(130, 300)))}
        kf = c.tmp / f"crowd{r}.json"
        kf.write_text(json.dumps(keys))
        scripts = []
        for t in ("f64", "f32"):
            order = rng.sample(sorted(keys), len(keys))
            again = rng.sample(order, len(order))
            scripts.append([{"op": "register", "t": t, "k": k} for k in order] + [{"op": "size", "t": t}]
                           + [{"op": "register", "t": t, "k": k} for k in again]
                           + [{"op": "tabulate", "t": t, "h": h} for h in range(len(order) + 1)] + [{"op": "size", "t": u} for u in ("f64", "f32")])
        res, errs = shimlib.feed(c, "shim_registry.py", [lib, kf], scripts)
        for i, e in errs:
            c.violation("the process using the shim died", {"script": scripts[i], "keys": keys, "error": e})
        ok = [x for x in res if x is not None]
        for i in c.judge("ElementRegistryTrace", ok, chunk=2000,
                         cfg_text="SPECIFICATION TSpec\n" + consts(keys, keys, 10 ** 6).replace(
                             "CHECK_DEADLOCK", "CONSTRAINT Progress\nPOSTCONDITION Report\nCHECK_DEADLOCK")):
            c.violation("registry answers are not those of the specification (many elements)", {"keys": keys, "recording": ok[i]})


def run(c):
    c.tlc("ElementRegistry", workers=8)
    lib = shimlib.build(c)
    kf = c.tmp / "keys.json"
    kf.write_text(json.dumps(KEYS))
    scripts = []
    import random
    rng = random.Random(c.seed)
    for r in range(c.pick(6, 40)):
        ks = rng.sample(sorted(KEYS), 4)
        for L in (6, 14, 30):
            g = c.tlc("ElementRegistryGen", cfg_text="SPECIFICATION GSpec\n" + consts(ks, [k for k in ks if k in GOOD], L),
                      workers=1, count=False,
                      args=["-simulate", f"num={c.pick(60, 300)}", "-depth", "80", "-seed", str(c.seed * 100 + r)])
            scripts += g.cases
    # every pair of keys, registered one after the other and back
    for t in ("f64", "f32"):
        for a in KEYS:
            for b in KEYS:
                seq = [a, b, a]
                scripts.append([{"op": "register", "t": t, "k": k} for k in seq]
                               + [{"op": "tabulate", "t": t, "h": h} for h in (0, 1, 2)]
                               + [{"op": "size", "t": u} for u in ("f64", "f32")]
                               + [{"op": "reset"}, {"op": "size", "t": t}]
                               + [{"op": "register", "t": t, "k": b}, {"op": "tabulate", "t": t, "h": 0},
                                  {"op": "tabulate", "t": t, "h": 1}])
    res, errs = shimlib.feed(c, "shim_registry.py", [lib, kf], scripts)
    for i, e in errs:
        c.violation("the process using the shim died", {"script": scripts[i], "error": e})
    ok = [(s, r) for s, r in zip(scripts, res) if r is not None]
    bad = c.judge("ElementRegistryTrace", [r for _, r in ok], chunk=2000,
                  cfg_text="SPECIFICATION TSpec\n" + consts(KEYS, GOOD, 1000).replace(
                      "CHECK_DEADLOCK", "CONSTRAINT Progress\nPOSTCONDITION Report\nINVARIANTS NoDuplicates AnswerDenotes\nCHECK_DEADLOCK"))
    for i in bad:
        c.violation("registry answers are not those of the specification", {"recording": ok[i][1]})
    crowds(c, lib, rng)
    c.extra["operations"] = sum(len(s) for s in scripts)
    for s, r in ok[:2]:
        c.sample(r)
    c.assumptions.append("single-threaded use of the registry; reference tabulations from basix's Python interface")


main("C03", run)
