import math
import random
import xml.etree.ElementTree as ET
from vc import SPEC, main
import cxx
import domcases
from domcases import join

SOURCES = domcases.SOURCES + ["reparam_mesh", "impl_reparam_mesh", "impl_reparam_general", "impl_reparam", "impl_reparam_bezier", "lagrange_tp_utils"]
E8 = 8  # driver units of 1/64 in an eighth


def boxes(rng, d, grid=None):
    lo = [rng.randint(-3, 3) * 32 for _ in range(d)]
    return lo, [x + rng.choice([32, 64, 64, 96, 128]) for x in lo]


def mesh_case(rng, d, n, file):
    ops, text, count = [], [], [0, 0]
    big = n ** d > 60
    limit = 3 if big else 6
    wb = lambda: int(rng.random() < .7)

    def add(op, words, **f):
        ops.append(dict(op=op, **f))
        text.append(" ".join([op, *map(str, words)]))
    for _ in range(rng.randint(2, 5 if big else 7)):
        m = int(rng.random() < .3)
        what = rng.choice(["full", "grid", "grid", "merge", "unique", "unique", "permute", "scale"])
        if what == "full" and count[m] < limit:
            lo, hi = boxes(rng, d)
            w = wb()
            add("full", [m, *lo, *hi, w], mesh=m, lo=lo, hi=hi, wb=bool(w))
            count[m] += 1
        elif what == "grid" and count[m] < limit:
            shape = rng.choice([(2, 1, 1), (1, 2, 1), (1, 1, 2)] if d == 3 else [(2, 1), (1, 2), (2, 2), (3, 1)])
            breaks = []
            for k in shape:
                b = [rng.randint(-2, 2) * 32]
                for _ in range(k):
                    b.append(b[-1] + rng.choice([32, 64, 64, 128]))
                breaks.append(b)
            total = math.prod(shape)
            cells = rng.sample(range(total), rng.randint(1, total))
            w = wb()
            add("grid", [m, *(x for b in breaks for x in (len(b), *b)), len(cells), *cells, w], mesh=m, breaks=breaks, cells=cells, wb=bool(w))
            count[m] += len(cells)
        elif what == "merge" and count[0] + count[1] <= limit + 2:
            add("merge", [m], mesh=m)
            count[m] += count[1 - m]
        elif what == "unique":
            add("unique", [m], mesh=m)
        elif what == "permute" and count[m]:
            c = rng.randrange(count[m])
            add("permute", [m, c], mesh=m, cell=c)
        elif what == "scale" and count[m]:
            old = [rng.randint(-2, 2) * 32 for _ in range(d)], [0] * d
            new = [rng.randint(-2, 2) * 32 for _ in range(d)], [0] * d
            for k in range(d):
                old[1][k] = old[0][k] + rng.choice([64, 128])
                new[1][k] = new[0][k] + rng.choice([64, 128])
            add("scale", [m, *old[0], *old[1], *new[0], *new[1]], mesh=m, **{"from": old, "to": new})
    if rng.random() < .6:
        add("unique", [0], mesh=0)
    return f"mesh {d} {n} {file} {len(text)} {' '.join(text)}", {"k": "mesh", "d": d, "n": n, "ops": ops}


def vtu(path, dim, d):
    root = ET.parse(path).getroot()
    piece = root.find(".//Piece")
    arr = {a.get("Name"): a.text.split() if a.text else [] for a in root.iter("DataArray")}
    x = [round(float(v) * 64 * 65536) for v in arr["Points"]]
    pts = [x[k:k + d] for k in range(0, len(x), 3)]
    ok = int(piece.get("NumberOfPoints")) == len(pts) and int(piece.get("NumberOfCells")) == len(arr["types"])
    ok = ok and all(x[k + j] == 0 for k in range(0, len(x), 3) for j in range(d, 3)) and root.get("version") == "0.1"
    ints = lambda k: [int(v) for v in arr[k]]
    return {"dim": dim, "points": pts if ok else [], "conn": ints("connectivity"), "offsets": ints("offsets"), "types": ints("types")}


def coefficients(rng, d):
    a = [rng.choice([-4, -3, -2, -1, 1, 2, 3, 4]) for _ in range(d)]
    for k in range(d):
        if rng.random() < .2:
            a[k] = 0
    if not any(a):
        a[rng.randrange(d)] = rng.choice([-1, 1, 2])
    return a


def scale(a):
    m = [abs(x) for x in a if x]
    return math.factorial(len(m)) * math.prod(m), 12 * (len(m) + 1) * math.factorial(len(m)) * math.prod(m)


def cut_case(rng, d, direct=False):
    bez = rng.choice([0, 0, 1, 2])
    shape = rng.choice([(1, 1), (1, 1), (2, 1), (1, 2), (2, 2)] if d == 2 else [(1, 1, 1), (1, 1, 1), (1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2)])
    breaks = []
    for k in shape:
        b = [rng.randint(-4, 4)]
        for _ in range(k):
            b.append(b[-1] + rng.randint(1, 4))
        if bez:  # within the unit box, where these functions live
            b = sorted(rng.sample(range(9), k + 1))
        breaks.append(b)
    if direct:  # the function of one cell
        bez, shape = rng.choice([3, 4, 5]), (1,) * d
        breaks = [[b, b + rng.choice([1, 2, 4])] for b in (rng.randint(-4, 4) for _ in shape)]
    a = coefficients(rng, d)
    # through the grid
    at = [rng.randint(b[0] * 2, b[-1] * 2) / 2 for b in breaks]
    c = round(sum(x * y for x, y in zip(a, at)))
    if bez > 2 and rng.random() < .4:
        c += rng.choice([-40, 40])
    levelset, merge = rng.random() < .4, rng.random() < .7
    if (levelset or direct) and sum(1 for x in a if x) == 1:  # not in faces of cells
        k = next(j for j in range(d) if a[j])
        if any(a[k] * x == c for x in breaks[k]):
            a[k], c = 2 * (1 if a[k] > 0 else -1), 2 * breaks[k][0] + 1
            c = c if a[k] > 0 else -c
    sign, c2 = 0, 0
    if rng.random() < .35:
        sign, c2 = rng.choice([1, -1]), c + (rng.randint(2, 12) if d == 2 else rng.randint(8, 20))
        if sum(1 for x in a if x) == 1:
            k = next(j for j in range(d) if a[j])
            if a[k] % 3 or c % 3 == 0 or c2 % 3 == 0 or any(y - x == 3 for x, y in zip(breaks[k], breaks[k][1:])):
                sign, c2 = 0, 0  # planes in faces of the parts a cell is split into
    total = math.prod(shape)
    cells = list(range(total))
    every = total == 1 or rng.random() < .4
    if not every:
        cells = rng.sample(cells, rng.randint(1, total))
    n = rng.choice([2, 2, 3, 4, 5, 7, 8] if d == 2 else [2, 2, 3, 4, 7])
    if sign:
        n = min(n, 4 if d == 2 else 2)
    s, sm = scale(a)
    qv, qm = s * 8 ** (d - 1 if levelset else d), sm * 8 ** (d + 1)
    nc = "-1" if every else join([len(cells)], cells)
    grid = " ".join(join([len(b)], [x * E8 for x in b]) for b in breaks)
    return (f"cut {d} {n} {int(levelset)} {int(merge)} {bez} {grid} {join(a)} {c * E8} {sign} {c2 * E8} {nc} {qv} {qm}",
            {"k": "cut", "breaks": breaks, "a": a, "c": c, "bez": bez, "s": sign, "c2": c2, "levelset": levelset, "merge": merge, "cells": cells, "qv": qv, "qm": qm, "n": n})


def oval_case(rng, d):
    n = rng.choice([3, 4, 5, 6, 8] if d == 2 else [4, 5])
    levelset, merge, bez = rng.random() < .5, rng.random() < .5, d == 2 and rng.random() < .4
    c = [rng.randint(24, 40) for _ in range(d)]
    a = [rng.choice([1, 1, 2, 3]) for _ in range(d)]
    most = min(min(x, 64 - x) * k for x, k in zip(c, a)) - 1
    r = rng.randint(most * 2 // 3, most)
    breaks = []
    for k, x in zip(a, c):  # no caps too thin to be seen
        good = [g for g in range(4, 61) if abs(k * abs(x - g) - r) >= 3 * k]
        breaks.append([0] + sorted(rng.sample(good, rng.randint(0, 2 if d == 2 else 1))) + [64])
    s = rng.choice([1, 1, -1])
    grid = " ".join(join([len(b)], b) for b in breaks)
    return (f"oval {d} {n} {int(levelset)} {int(merge)} {int(bez)} {grid} {join(a)} {join(c)} {r} {s} 10000",
            {"k": "oval", "n": n, "levelset": levelset, "breaks": breaks, "a": a, "c": c, "r": r, "s": s, "bez": bool(bez)})


def facet_case(rng, d):
    lo = [rng.randint(-4, 4) for _ in range(d)]
    hi = [x + rng.randint(1, 4) for x in lo]
    while True:
        a = coefficients(rng, d)
        f = rng.randrange(2 * d)
        if any(x for k, x in enumerate(a) if k != f // 2):
            break
    at = [rng.randint(2 * x, 2 * y) / 2 for x, y in zip(lo, hi)]
    at[f // 2] = (lo if f % 2 == 0 else hi)[f // 2]
    c = round(sum(x * y for x, y in zip(a, at)))
    n = rng.choice([2, 3, 4, 7])
    s, _ = scale([x for k, x in enumerate(a) if k != f // 2])
    qv = s * 8 ** (d - 1)
    e = lambda v: join([x * E8 for x in v])
    return (f"facet {d} {n} {e(lo)} {e(hi)} {join(a)} {c * E8} 0 0 {f} {qv}",
            {"k": "facet", "lo": lo, "hi": hi, "a": a, "c": c, "facet": f, "qv": qv, "unique": False})


def lagrange_case(rng):
    d = rng.choice([1, 2, 3])
    n = [rng.randint(2, 8 if d == 1 else 5) for _ in range(d)]
    m = [rng.randint(0, min(k - 1, 4)) for k in n]
    p = [rng.randint(0, 4) for _ in range(d)]
    ch = int(rng.random() < .5)
    return f"lagrange {d} {join(n)} {ch} {join(p)} {join(m)}", {"k": "lagrange", "n": n, "p": p, "m": m}


def run(c):
    c.tlc("HalfSpaceLaws", cfg="HalfSpaceLaws.cfg" if c.thorough else None,
          cfg_text=None if c.thorough else (SPEC / "HalfSpaceLaws.cfg").read_text().replace("{1, 2, 3}", "{1, 2}"), workers=4)
    for d, n, depth in c.pick([(2, 3, 3), (3, 2, 2)], [(2, 3, 4), (3, 2, 3), (3, 3, 2)]):
        c.tlc("ReparamMeshLaws", cfg_text=f"SPECIFICATION Spec\nCONSTANTS Dim={d} Nodes={n} Depth={depth}\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\n", workers=8)
    exe = cxx.build(c, "reparam", SOURCES)
    rng = random.Random(c.seed * 23)
    cases = []
    for k in range(c.pick(160, 1500)):
        d = 2 if k % 5 < 3 else 3
        n = rng.choice([2, 3, 4, 5, 6, 7, 8] if d == 2 else [2, 2, 3, 4, 7])
        cases.append(mesh_case(rng, d, n, str(c.tmp / f"m{k}") if rng.random() < .4 else "-"))
    for k in range(c.pick(420, 4000)):
        cases.append(cut_case(rng, 2 if k % 2 else 3))
    for k in range(c.pick(120, 1000)):
        cases.append(cut_case(rng, 2 if k % 2 else 3, direct=True))
    for k in range(c.pick(120, 1000)):
        cases.append(facet_case(rng, 2 if k % 3 == 0 else 3))
    for k in range(c.pick(150, 1000)):
        cases.append(lagrange_case(rng))
    for k in range(c.pick(120, 1200)):
        cases.append(oval_case(rng, 3 if k % 3 == 0 else 2))
    cases.append(("oval 2 4 0 0 1 4 0 17 45 64 4 0 8 58 64 1 3 36 37 19 -1 10000",  # roots that come and go over a base that none divides
                  {"k": "oval", "n": 4, "levelset": False, "breaks": [[0, 17, 45, 64], [0, 8, 58, 64]], "a": [1, 3], "c": [36, 37], "r": 19, "s": -1, "bez": True}))
    recs = []
    for (case, f), r in zip(cases, cxx.run(exe, [x for x, _ in cases], timeout=600, jobs=8)):
        if "crash" in r:
            c.violation(f"the reparameterization died on {case[:160]}: {r['crash']}", case)
            continue
        rec = {**f, **r}
        if f["k"] == "mesh":
            name = case.split()[3]
            rec["files"] = [] if name == "-" else [vtu(name + ".vtu", f["d"], f["d"]), vtu(name + "_wb.vtu", 1, f["d"])]
        recs.append((case, rec))
    for b in c.judge("ReparamJudge", [r for _, r in recs], cfg="Judge.cfg", chunk=40, jobs=8):
        case, r = recs[b]
        c.violation(f"not the mesh asked for: {case[:200]}", {"case": case, "answer": r})
    for k in ("mesh", "cut", "facet", "lagrange", "oval"):
        one = next((r for _, r in recs if r["k"] == k and (k != "mesh" or len(r["points"]) < 20)), None)
        c.sample(one)
    c.extra["cases"] = {k: sum(1 for _, r in recs if r["k"] == k) for k in ("mesh", "cut", "facet", "lagrange", "oval")}


main("C23", run)
