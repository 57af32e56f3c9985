"""Processes that compile forms with the real qugar.dolfinx.jit and stop where told; see checks/C19.py.

Reads scripts (JSON lines) {"script": [...], "dir": ..., "setup": {...}} and answers the recorded events."""
import json
import logging
import os
import signal
import sys
from pathlib import Path

sys.path[:0] = [str(Path(__file__).resolve().parent.parent / d) for d in ("stubs", "lib")]
import ffcx_mini  # noqa: E402
import jit_mini as jm  # noqa: E402
import ufl_mini as um  # noqa: E402


def extra():
    um.install()
    jm.install()


ffcx_mini.install(extra)
import importlib  # noqa: E402
import qugar.dolfinx.compiler  # noqa: E402
import qugar.dolfinx.jit as J  # noqa: E402

SIGS = ("s1", "s2")


def form_of(s):
    f = um.Form([])
    f.mark = s
    return f


def fake_codegen(objs, prefix=None, options=None, visualise=False, **k):
    jm.stop("gen")
    key = json.dumps([[o.mark for o in objs], prefix, sorted((a, str(b)) for a, b in options.items())])
    return "decl " + key, "code " + key, ["itg " + key]


def fake_shim():
    jm.stop("shim")
    return Path(SHIM[0]), "the_shim"


SHIM = ["/shim/dir"]


def given(kw, name):
    return set(kw.get(name) or [])


def linked(kw, shim):
    return any(x == shim for x in given(kw, "library_dirs")) and any("rpath" in x and shim in x for x in given(kw, "extra_link_args"))


if len(sys.argv) > 1:
    for _m in ("qugar.cpp", "qugar"):
        sys.modules[_m].__version__ = sys.argv[1]
qugar.dolfinx.compiler.compile_ufl_objects = fake_codegen
qugar.dolfinx._shim.ensure_built = fake_shim
importlib.reload(J)


def child(rd, wr, work, setup):
    """one process"""
    rf, wf = os.fdopen(rd, "r"), os.fdopen(wr, "w")

    def tell(**k):
        wf.write(json.dumps(k) + "\n")
        wf.flush()

    def ask():
        line = rf.readline()
        if not line:
            os._exit(0)
        return json.loads(line)

    def point(where):
        tell(at=where)
        return ask()["do"]
    jm.point = point
    jm.CACHE[0] = work / "cache"
    real = J.sysconfig.get_config_var
    J.sysconfig.get_config_var = lambda n: setup["raw"] if n == "LDSHARED" else real(n)
    os.environ.pop("LDSHARED", None)
    if setup["user"] is not None:
        os.environ["LDSHARED"] = setup["user"]
    root = logging.getLogger()
    root.handlers = [logging.NullHandler(), logging.NullHandler()]
    os.chdir(work)
    devnull = open(os.devnull, "w")
    sys.stdout = devnull
    while True:
        cmd = ask()
        before = (os.environ.get("LDSHARED"), list(root.handlers), sys.stdout)
        jm.FFIS.clear()
        jm.LINKS.clear()
        opts = dict(setup["options"])
        jopts = dict(setup["jit"]) if setup["jit"] else None
        res = {}
        try:
            itg, obj, mod, code = J.ffcx_jit("comm", form_of(cmd["s"]), form_compiler_options=opts, jit_options=jopts)
            key = json.loads(itg[0][4:])
            libs = mod.content["kw"]
            res = {"at": "ret", "ok": len(itg) == 1 and mod.content["code"] == "code " + itg[0][4:] and key[0] == [cmd["s"]] and key[1] == mod.name
                   and obj.startswith(mod.name + "/") and code[1] == mod.content["code"] and "the_shim" in given(libs, "libraries")
                   and "m" in given(libs, "libraries") and linked(libs, "/shim/dir") and set((jopts or {}).get("cffi_libraries", [])) <= given(libs, "libraries")
                   and set((jopts or {}).get("cffi_extra_compile_args", ["-O2"])) <= given(libs, "extra_compile_args"), "links": list(jm.LINKS), "name": mod.name}
        except TimeoutError:
            res = {"at": "raise", "exc": "timeout", "ok": True}
        except jm.Mine:
            res = {"at": "raise", "exc": "mine", "ok": True}
        except Exception as e:  # noqa: BLE001
            res = {"at": "raise", "exc": repr(e)[:300], "ok": False}
        after = (os.environ.get("LDSHARED"), list(root.handlers), sys.stdout)
        same = before[0] == after[0] and len(before[1]) == len(after[1]) and all(a is b for a, b in zip(before[1], after[1])) and before[2] is after[2]
        same = same and opts == setup["options"] and (jopts or {}) == (setup["jit"] or {})
        res["restored"] = same
        res["ok"] = res["ok"] and same
        tell(**res)


class Proc:
    def __init__(self, work, setup):
        a, b = os.pipe(), os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(a[1])
            os.close(b[0])
            try:
                child(a[0], b[1], work, setup)
            finally:
                os._exit(1)
        os.close(a[0])
        os.close(b[1])
        self.wf, self.rf = os.fdopen(a[1], "w"), os.fdopen(b[0], "r")
        self.idle, self.dead, self.last = True, False, None

    def step(self, **k):
        self.wf.write(json.dumps(k) + "\n")
        self.wf.flush()
        line = self.rf.readline()
        return json.loads(line) if line else {"at": "died", "ok": False}

    def kill(self):
        os.kill(self.pid, signal.SIGKILL)
        os.waitpid(self.pid, 0)
        self.dead = True

    def close(self):
        if not self.dead:
            self.kill()
        self.wf.close()
        self.rf.close()


def files(cache, names):
    r = {}
    for s in SIGS:
        found = {"claim": False, "ready": False, "lib": "none"}
        n = names.get(s)
        if n:
            found["claim"] = (cache / (n + ".c")).exists()
            found["ready"] = (cache / (n + ".c.cached")).exists()
            p = cache / (n + ".lib")
            if p.exists():
                try:
                    json.loads(p.read_text())
                    found["lib"] = "full"
                except ValueError:
                    found["lib"] = "part"
        r[s] = found
    return r


def play(job):
    work = Path(job["dir"])
    work.mkdir(parents=True)
    cache = work / "cache"
    names, events, procs, links = {}, [], {}, []
    try:
        def do(p, what, s):
            q = procs.get(p)
            if q is None:
                q = procs[p] = Proc(work, job["setup"])
            if q.dead or (what == "call") != q.idle:
                return False
            if what == "fail" and q.last in ("load", "wait"):
                what = "go"
            ev = {"p": p, "do": what, "s": s, "exc": ""}
            if what == "kill":
                q.kill()
                ev |= {"at": "dead", "ok": True}
            else:
                r = q.step(do=what, s=s)
                ev |= {"at": r["at"], "ok": r.get("ok", True), "exc": r.get("exc", "")}
                if r.get("links"):
                    links.extend(r["links"])
                if r.get("name"):
                    names.setdefault("named " + q.s if not q.idle else "named " + s, r["name"])
                if what == "call":
                    q.s = s
                    new = [x.name[:-2] for x in cache.glob("*.c") if x.name[:-2] not in names.values()] if cache.exists() else []
                    if s not in names and new:
                        names[s] = new[0]
                elif q.s not in names and cache.exists():
                    new = [x.name[:-2] for x in cache.glob("*.c") if x.name[:-2] not in names.values()]
                    if new:
                        names[q.s] = new[0]
                q.last = r["at"]
                q.idle = r["at"] in ("ret", "raise")
                ev["s"] = q.s
                if r["at"] == "died":
                    q.dead = True
            ev["files"] = files(cache, names)
            events.append(ev)
            return True
        for st in job["script"]:
            do(st["p"], st["do"], st["s"])
        # let everybody finish
        for _ in range(60):
            busy = [p for p, q in procs.items() if not q.dead and not q.idle]
            if not busy:
                break
            for p in busy:
                do(p, "go", procs[p].s)
        stuck = [p for p, q in procs.items() if not q.dead and not q.idle]
    finally:
        for q in procs.values():
            q.close()
    return {"events": events, "stuck": stuck, "links": links, "names": {k: v for k, v in names.items()}}


def named(job):
    """names of the modules for combinations of forms and options, in this version of qugar"""
    out = []
    jm.point = lambda w: "go"
    root = Path(job["dir"])
    for n, (mark, opts, jopts, shim) in enumerate(job["combos"]):
        SHIM[0] = shim
        jm.CACHE[0] = root / str(n % 3)
        itg, obj, mod, code = J.ffcx_jit("comm", form_of(mark), form_compiler_options=dict(opts), jit_options=dict(jopts))
        plain = "libffcx_forms_" + jm.signature([form_of(mark)], str(sorted((k, str(v)) for k, v in jm.options(opts).items()))
                                                 + str(jopts.get("cffi_extra_compile_args", ["-O2"])) + str(jopts.get("cffi_debug", False)))
        out.append({"name": mod.name, "obj": obj, "plain": plain, "itg": linked(mod.content["kw"], shim) and itg[0] == "itg " + mod.content["code"][5:]})
    # without a folder a new one is used every time
    jm.CACHE[0] = None
    jm.FFIS.clear()
    two = [J.ffcx_jit("comm", form_of("nocache"))[2] for _ in range(2)]
    return {"names": out, "nocache": len(jm.FFIS) == 2 and two[0].content["code"] == two[1].content["code"]}


def main():
    out = os.fdopen(os.dup(1), "w")
    for line in sys.stdin:
        job = json.loads(line)
        try:
            r = play(job) if "script" in job else named(job)
        except Exception as e:  # noqa: BLE001
            if "script" in job:
                raise
            r = {"error": repr(e)[:500]}
        out.write(json.dumps(r) + "\n")
        out.flush()


main()
