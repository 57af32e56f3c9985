import importlib.util
import json
import os
import random
import subprocess
import sys
import types
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path
from vc import main, REPO
import pycheck

HERE = Path(__file__).resolve().parent.parent
PKGS = ("dolfinx", "basix", "ffcx", "ufl")


def text(v, sfx):
    return ".".join(map(str, v)) + sfx


def load(world, petsc, n=[0]):
    """qugar.utils imported where the given versions are installed."""
    n[0] += 1
    saved = {k: v for k, v in sys.modules.items() if k.split(".")[0] in PKGS + ("petsc4py",)}
    for k in saved:
        del sys.modules[k]
    for p in PKGS:
        for q in ([p, p + ".cpp"] if p == "dolfinx" else [p]):
            if world[p] is None:
                sys.modules[q] = None
            else:
                m = types.ModuleType(q)
                m.__version__ = world[p]
                m.__path__ = []
                sys.modules[q] = m
    if petsc:
        m = types.ModuleType("petsc4py")
        m.PETSc = object()
        sys.modules["petsc4py"] = m
    else:
        sys.modules["petsc4py"] = None
    try:
        sp = importlib.util.spec_from_file_location(f"qugar_utils_{n[0]}", REPO / "python/qugar/utils.py")
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        return m
    finally:
        for k in [k for k in sys.modules if k.split(".")[0] in PKGS + ("petsc4py",)]:
            del sys.modules[k]
        sys.modules.update(saved)


def run(c):
    c.tlc("VersionGateLaws", workers=8)
    rng = random.Random(c.seed * 23)
    obs = []
    good = {"dolfinx": (0, 10, 0), "basix": (0, 10, 0), "ffcx": (0, 10, 0), "ufl": (2025, 2, 0)}
    lo = {p: text(v, "") for p, v in good.items()}
    u = load(lo, True)
    ops = [(op, getattr(u, n), k) for op, n, k in (("lt", "_compare_version_lt", 2), ("le", "_compare_version_le", 2), ("range", "check_version_in_range", 3))
           if hasattr(u, n)]
    vs = [(a, b, d) for a in (0, 1, 2) for b in (0, 9, 10, 11) for d in (0, 1, 12)]
    sfx = ["", "", "", ".post1", ".post5"]
    for _ in range(c.pick(3000, 20000)):
        a, b, d = (list(rng.choice(vs)) for _ in range(3))
        if rng.random() < .3:
            b = list(a)
            b[rng.randrange(3)] += rng.choice([-1, 0, 1]) if min(b) > 0 else 1
        for op, fn, k in ops:
            args = (a, b, d)[:k]
            r = pycheck.ask(c, f"{fn.__name__} failed", args, fn, *[text(v, rng.choice(sfx)) for v in args])
            if r is not None:
                obs.append({"op": op, "a": a, "b": b, "d": d, "res": bool(r)})

    def near(p):
        v = list(good[p])
        z = rng.random()
        if z < .55:
            v[2] += rng.choice([0, 0, 1, 5, 12])
        elif z < .9:
            k = rng.randrange(3)
            v[k] = max(0, v[k] + rng.choice([-1, 1]))
            v[2] = rng.choice([v[2], 3])
        else:
            return None
        return v

    def world():
        z = rng.random()
        if z < .25:
            return {p: [good[p][0], good[p][1], rng.choice([0, 1, 7])] for p in PKGS}
        w = {p: list(good[p]) for p in PKGS}
        for p in rng.sample(PKGS, rng.choice([1, 1, 1, 2, 4])):
            w[p] = near(p)
        return w
    for _ in range(c.pick(600, 5000)):
        w = world()
        petsc = rng.random() < .5
        m = pycheck.ask(c, "qugar.utils failed", w, load, {p: None if v is None else text(v, rng.choice(sfx)) for p, v in w.items()}, petsc)
        if m is not None:
            obs.append({"op": "gate", "world": {p: v or [] for p, v in w.items()}, "res": bool(m.has_FEniCSx)})
            obs.append({"op": "petsc", "have": petsc, "res": bool(m.has_PETSc)})

    jobs = []
    for k in range(c.pick(24, 120)):
        w = {p: list(good[p]) for p in PKGS} if k < 4 else world()
        if w["basix"] is None and k % 2:
            w["basix"] = list(good["basix"])
        pyver = [0, 10, rng.choice([0, 3])] if rng.random() < .6 else rng.choice([[0, 11, 0], [1, 10, 0], [0, 9, 0]])
        jobs.append((w, k % 2 == 0, False, pyver))

    def one(job):
        w, petsc, pv, pyver = job
        world_ = {p: None if v is None else text(v, "") for p, v in w.items()}
        world_["dolfinx_py"] = text(pyver, "")
        p = subprocess.run([sys.executable, str(HERE / "lib/gateworld.py"), json.dumps({"world": world_, "petsc": petsc, "pyvista": pv})],
                           capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=str(REPO)), timeout=120)
        return job, p
    with ThreadPoolExecutor(8) as ex:
        for (w, petsc, pv, pyver), p in ex.map(one, jobs):
            what = {"world": w, "petsc": petsc, "dolfinx python layer": pyver}
            line = [ln for ln in p.stdout.splitlines() if ln.startswith("OUT")]
            if not line:
                c.violation("importing qugar failed", dict(what, err=p.stderr[-1500:]))
                continue
            out = json.loads(line[0][3:])
            obs.append({"op": "package", "world": {q: v or [] for q, v in w.items()}, "pyvista": pv, "petsc": petsc, "solvers": out.get("solvers", False),
                        "parts": out["parts"], "has": out["has"], "tried": out["tried"]})
            if "calls" in out:
                args = [("constants", "coefficients"), ("K", "coefficients"), ("constants", "C"), ("K", "C")]
                want = [["cpp", "form", k, q] for k, q in args] * 2
                up = [["upstream", "form", "constants", "coefficients"], ["upstream", "form", "K", "coefficients"],
                      ["upstream", "form", "constants", "constants"], ["upstream", "form", "K", "K"]] * 2
                obs.append({"op": "patch", "dolfinx": pyver, "res": out["calls"], "want": want, "upstream": up})
    for i in c.judge("VersionJudge", obs, cfg="Judge.cfg"):
        o = obs[i]
        c.violation(f"{o['op']}: {json.dumps(o)[:200]}", o)
    c.sample(obs[0])
    c.sample(obs[-1])
    c.assumptions.append("the FEniCSx packages are stand-ins with chosen versions")


main("C25", run)
