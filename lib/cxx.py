"""Build drivers over the C++ sources of /repo (Algoim replaced by /verif/standin) and run cases through them.

A driver reads one case per line from stdin and answers one JSON line per case; when it dies (failed assertion,
sanitizer report, exception) the case is reported as {"crash": ...} and the rest goes on in a new process."""
from __future__ import annotations

import json
import os
import subprocess
from concurrent.futures import ThreadPoolExecutor

from vc import REPO, VERIF, CheckError

CXX = ["g++", "-std=gnu++20", "-O1", "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer",
       "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", f"-I{VERIF}/standin", f"-I{REPO}/cpp/include",
       f"-I{VERIF}/drivers/cxx"]
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0", UBSAN_OPTIONS="print_stacktrace=0")


def build(c, driver: str, sources: list[str], flags=()):
    out = c.tmp / f"cxx-{driver}"
    out.mkdir()
    units = [(REPO / "cpp" / "qugar" / f"{s}.cpp", out / f"{s}.o") for s in sources]
    units.append((VERIF / "drivers" / "cxx" / f"{driver}.cpp", out / "main.o"))

    def one(u):
        src, obj = u
        p = subprocess.run([*CXX, *flags, "-c", str(src), "-o", str(obj)], capture_output=True, text=True, timeout=800)
        if p.returncode:
            raise CheckError(f"cannot compile {src}\n{p.stderr[:3000]}")
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, units))
    exe = out / driver
    link = lambda us: subprocess.run([*CXX, *flags, *(str(o) for _, o in us), "-o", str(exe)], capture_output=True, text=True, timeout=600)
    p = link(units)
    if p.returncode:  # a source came to need another one: take them all
        rest = [(s, out / f"{s.stem}.o") for s in sorted((REPO / "cpp" / "qugar").glob("*.cpp")) if s.stem not in sources]
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(one, rest))
        p = link(units + rest)
    if p.returncode:
        raise CheckError(f"cannot link {driver}\n{p.stderr[:3000]}")
    return exe


def run(exe, cases: list[str], timeout=300, jobs=6, argv=(), env=ENV) -> list[dict]:
    n = max(1, min(jobs, len(cases) // 50))
    parts = [range(k, len(cases), n) for k in range(n)]
    cwd = argv[-1] if argv else exe.parent
    res: list = [None] * len(cases)

    def go(part):
        todo = list(part)
        while todo:
            try:
                p = subprocess.run([str(exe), *argv], input="".join(cases[k] + "\n" for k in todo), env=env, cwd=cwd,
                                   capture_output=True, text=True, timeout=timeout)
                out, err, rc = p.stdout, p.stderr, p.returncode
            except subprocess.TimeoutExpired as e:
                out = e.stdout.decode() if isinstance(e.stdout, bytes) else e.stdout or ""
                err, rc = "no answer", 1
            lines = out.split("\n")[:-1]
            for k, ln in zip(todo, lines):
                res[k] = json.loads(ln)
            if len(lines) >= len(todo):
                return
            bad = todo[len(lines)]
            why = [ln for ln in err.splitlines() if "ssert" in ln or "ERROR" in ln or "error" in ln or "what()" in ln]
            res[bad] = {"crash": (why or err.splitlines()[-1:] or [f"exit {rc}"])[0][:400]}
            todo = todo[len(lines) + 1:]
    with ThreadPoolExecutor(n) as ex:
        list(ex.map(go, parts))
    return res
