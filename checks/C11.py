import random
import numpy as np
from vc import main
import pycheck
from pycheck import jlist


def run(c):
    import fenics_stub
    fenics_stub.install()
    from qugar.mesh.tp_index import TensorProdIndex as T
    m = c.pick((9, 6, 4), (30, 11, 6))
    shapes = [x["n"] for x in c.tlc("TensorIndexLaws", workers=8, cfg_text="SPECIFICATION Spec\nINVARIANT Laws\n"
              f"CHECK_DEADLOCK FALSE\nCONSTANTS MaxN1 = {m[0]} MaxN2 = {m[1]} MaxN3 = {m[2]}\n").cases]
    rng = random.Random(c.seed)
    # lopsided shapes beyond the enumerated box
    for _ in range(c.pick(12, 60)):
        d = rng.choice([1, 2, 3])
        s = [rng.choice([1, 2, 3, 5, 17]) for _ in range(d)]
        shapes.append(s)
    big = [[rng.randint(200, 1200) for _ in range(3)] for _ in range(c.pick(10, 60))]
    big = [b for b in big if b[0] * b[1] * b[2] < 2 ** 31] + [[1290, 1290, 1290], [46340, 46340], [2 ** 31 - 1]]
    obs = []

    def ask(op, n, fn, **kw):
        r = pycheck.ask(c, f"{op} of {n} {kw}", {"op": op, "n": n, **kw}, fn)
        if r is not None:
            obs.append({"op": op, "n": n, "res": jlist(r), **kw})

    for n in shapes:
        d, a = len(n), np.array(n, dtype=np.int32)
        tot = int(np.prod(n))
        if min(n) >= 2:
            ask("corners", n, lambda: T.get_all_corners(a))
            ask("internal", n, lambda: T.get_all_internal(a))
            ask("faces", n, lambda: T.get_all_faces(a))
            if d < 3:
                ask("edges", n, lambda: T.get_all_edges(a))
        for k in range(2 ** d):
            ask("corner", n, lambda: [T.get_corner(a, k)], id=k)
        for k in range(2 * d):
            for lex in (True, False):
                ask("face", n, lambda: T.get_face(a, k, lexicg=lex), id=k, lex=lex)
            # the numbering is DOLFINx's unless said otherwise, ids may be NumPy integers
            ask("face", n, lambda: T.get_face(a, np.int32(k)), id=k, lex=False)
        for k in range({1: 2, 2: 4, 3: 12}[d]):
            for lex in (True, False):
                ask("edge", n, lambda: T.get_edge(a, k, lexicg=lex), id=k, lex=lex)
            ask("edge", n, lambda: T.get_edge(a, np.int32(k)), id=k, lex=False)
        tids = [list(t) for t in np.ndindex(*n)]
        ask("flat", n, lambda: [T.get_flat_index(a, np.array(t, dtype=np.int32)) for t in tids], ask=tids)
        ids = list(range(tot))
        ask("tensor", n, lambda: [T.get_tensor_index(a, i) for i in ids], ask=ids)
    for n in big:
        a = np.array(n, dtype=np.int32)
        tot = 1
        for x in n:
            tot *= x
        tids = [[rng.randrange(x) for x in n] for _ in range(20)] + [[x - 1 for x in n]]
        ask("flat", n, lambda: [T.get_flat_index(a, np.array(t, dtype=np.int32)) for t in tids], ask=tids)
        ids = [rng.randrange(tot) for _ in range(20)] + [tot - 1]
        ask("tensor", n, lambda: [T.get_tensor_index(a, np.int64(i)) for i in ids], ask=ids)
        if tot < 2 ** 31 and len(n) > 1:
            ask("corner", n, lambda: [T.get_corner(a, 2 ** len(n) - 1)], id=2 ** len(n) - 1)
    # spaces with more elements than 32 bits hold, in digits of base 1000
    def digits(v):
        d = []
        while v > 0:
            d.append(int(v % 1000))
            v //= 1000
        return d if v == 0 else [-1]

    def huge(op, n, fn, size, **kw):
        at = sorted(set(range(min(size, 4))) | set(range(max(size - 4, 0), size)) | {rng.randrange(size) for _ in range(8)})
        r = pycheck.ask(c, f"{op} of {n} {kw}", {"op": op, "n": n, **kw}, fn)
        if r is not None:
            r = np.asarray(r).reshape(-1)
            obs.append({"op": op, "n": n, "len": len(r), "at": at, "ids": [digits(int(r[k])) for k in at if k < len(r)], **kw})

    wide = [[60000, 50000], [1300, 1310, 1290], [2000, 1, 1900], [900000, 2, 2], [3, 700000, 2000], [100000, 30000, 4], [5, 999999], [70000, 40000]]
    for n in wide + [[rng.choice([2, 7, 1500, 30000, 900000]) for _ in range(rng.choice([2, 3]))] for _ in range(c.pick(20, 150))]:
        d = len(n)
        for dt in (np.int32, np.int64):
            a = np.array(n, dtype=dt)
            kw = {"dt": np.dtype(dt).name}
            if min(n) >= 2:
                huge("corners", n, lambda: T.get_all_corners(a), 2 ** d, **kw)
                ring = 1
                for k, m in enumerate(n):
                    ring = 2 if k == 0 else 2 * int(np.prod(n[:k], dtype=object)) + (m - 2) * ring
                if ring <= 3000000:
                    huge("faces", n, lambda: T.get_all_faces(a), ring, **kw)
            for k in range(2 ** d):
                huge("corner", n, lambda: [T.get_corner(a, k)], 1, id=k, **kw)
            for k in range(2 * d):
                for lex in (True, False):
                    dirn = (k if lex else {2: [2, 0, 1, 3], 3: [4, 2, 0, 1, 3, 5]}[d][k]) // 2
                    size = int(np.prod([m for j, m in enumerate(n) if j != dirn], dtype=object))
                    if size <= 3000000 and rng.random() < .5:
                        huge("face", n, lambda: T.get_face(a, k, lexicg=lex), size, id=k, lex=lex, **kw)
            for k in range({2: 4, 3: 12}[d]):
                if rng.random() < .5:
                    lex = rng.random() < .5
                    r = pycheck.ask(c, f"edge {k} of {n}", {"op": "edge", "n": n, "id": k, "lex": lex}, lambda: T.get_edge(a, k, lexicg=lex))
                    if r is not None:
                        huge("edge", n, lambda: r, len(r), id=k, lex=lex, **kw)
            tids = [[rng.randrange(m) for m in n] for _ in range(6)] + [[m - 1 for m in n]]
            r = pycheck.ask(c, f"flat of {n}", {"op": "flat", "n": n, "ask": tids}, lambda: [T.get_flat_index(a, np.array(t, dtype=dt)) for t in tids])
            if r is not None:
                obs.append({"op": "flat", "n": n, "ask": tids, "at": [0], "len": len(tids), "ids": [digits(int(v)) for v in r]})
                back = pycheck.ask(c, f"tensor of {n}", {"op": "tensor", "n": n, "ask": tids}, lambda: [T.get_tensor_index(a, np.int64(int(v))) for v in r])
                if back is not None:
                    back = [[int(x) for x in b] for b in back]
                    # the elements found for the ids are judged by their own ids
                    obs.append({"op": "flat", "n": n, "ask": back, "at": [0], "len": len(back), "ids": [digits(int(v)) for v in r]})

    for i in c.judge("TPIndexJudge", obs, cfg="Judge.cfg"):
        o = obs[i]
        c.violation(f"{o['op']} {o.get('id', '')} {o.get('lex', '')} of {o['n']}: {str(o.get('res', o.get('ids')))[:150]}", o)
    c.extra["shapes"] = len(shapes)
    c.sample(obs[0])


main("C11", run)
