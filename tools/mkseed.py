"""Makes and tries out a planted bug: python3 tools/mkseed.py DEF.py

DEF.py sets ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (python source), FILES (extra files to
lay beside demo.py).  The change is applied to /repo, the tests, the demo and the property's check run, and it is undone."""
import json
import os
import shutil
import subprocess
import sys
from pathlib import Path

V, R = Path("/verif"), Path("/repo")
SH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export VERIF_REPO=$PWD PYTHONPATH=$here
exec "$PY" "$here/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def main(path, check=True):
    ns = {}
    exec(Path(path).read_text(), ns)
    d = V / "seeded" / ns["ID"]
    assert not sh("git -C /repo status --porcelain").stdout, "/repo is not clean"
    d.mkdir(parents=True, exist_ok=True)
    try:
        for f, old, new in ns["EDITS"]:
            p = R / f
            s = p.read_text()
            assert s.count(old) == 1, (f, s.count(old), old)
            p.write_text(s.replace(old, new))
        (d / "patch.diff").write_text(sh("git -C /repo diff").stdout)
    finally:
        sh("git -C /repo checkout -- .")
    (d / "demo.py").write_text(ns["DEMO"].lstrip("\n"))
    (d / "demo.sh").write_text(ns.get("SHELL", SH))
    os.chmod(d / "demo.sh", 0o755)
    for f in ns.get("FILES", []):
        shutil.copy(f, d)
    (d / "meta.json").write_text(json.dumps({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, indent=1) + "\n")
    return attempt(ns["ID"], check)


def attempt(i, check=True):
    d = V / "seeded" / i
    prop = json.loads((d / "meta.json").read_text())["property"]
    a = sh(f"bash {d}/demo.sh", cwd=R)
    ok = a.returncode == 0
    if not ok:
        print(i, "DEMO FAILS ON CLEAN TREE", a.stdout[-800:], a.stderr[-1500:])
    r = sh(f"git -C /repo apply {d}/patch.diff")
    if r.returncode:
        print(i, "DOES NOT APPLY", r.stderr)
        return False
    try:
        b = sh("bash /opt/vp/build.sh")
        t = sh("bash /opt/vp/test.sh /tmp/seed_o.json")
        n = len(json.load(open("/tmp/seed_o.json"))["passed"])
        e = sh(f"bash {d}/demo.sh", cwd=R)
        if b.returncode or n < 21:
            print(i, "BUILD/TESTS", b.returncode, n)
            ok = False
        if e.returncode == 0:
            print(i, "DEMO PASSES WITH THE CHANGE")
            ok = False
        caught = ""
        if check:
            k = sh(f"VERIF_SEED=1 VERIF_TIER=quick bash {V}/run.sh {prop}")
            lines = [x for x in k.stdout.splitlines() if x.startswith("VIOLATION property=" + prop)]
            caught = f"rc={k.returncode} {'CAUGHT' if k.returncode == 1 and lines else 'MISSED'} {lines[:1]} {k.stderr[-300:] if k.returncode not in (0, 1) else ''}"
        print(i, prop, "ok" if ok else "BAD", caught, "| demo:", (e.stdout + e.stderr).strip().splitlines()[-1:])
    finally:
        sh(f"git -C /repo apply -R {d}/patch.diff")
        sh("bash /opt/vp/build.sh")
    assert not sh("git -C /repo status --porcelain").stdout
    return ok


if __name__ == "__main__":
    for a in sys.argv[1:]:
        if a.endswith(".py"):
            main(a)
        else:
            attempt(a)
