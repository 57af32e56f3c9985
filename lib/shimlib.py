"""Builds the real shim with the project's own builder, in a scratch cache."""
import os
import subprocess
from vc import PY, REPO, CheckError

CODE = """
import sys, types
root = sys.argv[1]
for name, path in (("qugar", root), ("qugar.dolfinx", root + "/dolfinx")):
    m = types.ModuleType(name); m.__path__ = [path]; sys.modules[name] = m
import qugar.dolfinx._shim as s
d, n = s.ensure_built()
print("LIB", d / ("lib%s.so" % n))
"""


def build(c):
    env = dict(os.environ, QUGAR_SHIM_CACHE=str(c.tmp / "shim"))
    p = subprocess.run([PY, "-c", CODE, str(REPO / "python/qugar")], env=env, text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    for line in p.stdout.splitlines():
        if line.startswith("LIB "):
            return line[4:]
    raise CheckError("the shim does not build\n" + p.stdout[-2000:])


def feed(c, driver, args, scripts, jobs=6):
    """Split scripts over driver processes; None marks a crash of the driver."""
    import json
    from concurrent.futures import ThreadPoolExecutor
    from vc import VERIF
    n = max(1, min(jobs, len(scripts)))
    parts = [scripts[i::n] for i in range(n)]

    def one(part):
        p = subprocess.run([PY, str(VERIF / "drivers" / driver), *map(str, args)], text=True,
                           input="".join(json.dumps(s) + "\n" for s in part), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=800)
        res = [json.loads(x) for x in p.stdout.splitlines() if x.startswith(("[", "{"))]
        err = None
        if len(res) < len(part):
            if p.returncode >= 0 and "Traceback" in p.stderr:
                raise CheckError(f"{driver}: {p.stderr[-3000:]}")
            err = f"rc={p.returncode} {p.stderr[-1500:]}"
        return res, err

    with ThreadPoolExecutor(n) as ex:
        outs = list(ex.map(one, parts))
    res = [None] * len(scripts)
    errs = []
    for k, (o, err) in enumerate(outs):
        for j, r in enumerate(o):
            res[k + j * n] = r
        if err:
            errs.append((k + len(o) * n, err))
    return res, errs
