import json
import random
import shimlib
from vc import main

E = []


def add(family, cell, degree, lv, dv=0, disc=0, dim=0):
    E.append({"family": family, "cell": cell, "degree": degree, "lv": lv, "dv": dv, "disc": disc, "dim": dim})


for cell in (1, 2, 3, 4, 5):
    for p in (1, 2, 3):
        add(1, cell, p, 2)
add(1, 2, 0, 0, 0, 1)
add(1, 4, 0, 0, 0, 1)
add(1, 4, 2, 1)
add(1, 2, 3, 12)
add(1, 4, 2, 8, 0, 1)
add(8, 4, 2, 0, 6, 1, 6)
add(2, 2, 1, 11, 0, 0, 3)
add(3, 2, 1, 11, 0, 0, 3)
add(2, 3, 1, 11, 0, 0, 4)
add(3, 3, 1, 11, 0, 0, 6)
add(9, 2, 3, 0, 0, 0, 1)


def run(c):
    c.tlc("Scratch", workers=4)
    lib = shimlib.build(c)
    ef = c.tmp / "elems.ndjson"
    ef.write_text("".join(json.dumps(e) + "\n" for e in E))
    cases = c.tlc("TabulateCases", env={"ELEMS": ef}, workers=1).cases
    rng = random.Random(c.seed)
    rng.shuffle(cases)
    cases = cases[:c.pick(4000, 10 ** 9)]
    todo = [dict(x, t=t) for x in cases for t in ("f64", "f32")]
    for rep in range(c.pick(1, 4)):
        res, errs = shimlib.feed(c, "shim_tabulate.py", [lib, ef, c.seed * 17 + rep], todo)
        for i, e in errs:
            c.violation("the process calling the shim died", {"call": todo[i], "error": e})
        ok = [r for r in res if r is not None]
        for i in c.judge("TabulateJudge", ok, chunk=20000):
            c.violation("a tabulation call is not answered as specified", ok[i])
    c.sample(ok[0])
    # scratch memory
    scr = []
    for k in range(c.pick(150, 1500)):
        s = []
        for _ in range(rng.randint(3, 25)):
            th, t = rng.choice([1, 2, 3]), rng.choice(["f64", "f32"])
            z = rng.random()
            if z < 0.7:
                s.append({"op": "get", "th": th, "t": t, "n": rng.choice([1, 2, 7, 64, 1000, 5000, 100000]), "huge": False})
            elif z < 0.8:
                s.append({"op": "get", "th": th, "t": t, "n": rng.choice([2 ** 62, 2 ** 60, -1]), "huge": True})
            else:
                s.append({"op": "verify", "th": th})
        s += [{"op": "verify", "th": th} for th in (1, 2, 3)]
        scr.append(s)
    res, errs = shimlib.feed(c, "shim_scratch.py", [lib], scr)
    for i, e in errs:
        c.violation("the process asking for scratch memory died", {"script": scr[i], "error": e})
    ok = [r for r in res if r is not None]
    cfg = ('SPECIFICATION TSpec\nCONSTANTS\n  Threads = {1, 2, 3}\n  Types = {"f64", "f32"}\n  Top = 3\n'
           'CONSTRAINT Progress\nPOSTCONDITION Report\nCHECK_DEADLOCK FALSE\n')
    for i in c.judge("ScratchTrace", ok, cfg_text=cfg):
        c.violation("scratch memory is not used as specified", ok[i])
    c.sample(ok[0][:6])
    c.assumptions.append("reference values from basix's own Python interface")


main("C04", run)
