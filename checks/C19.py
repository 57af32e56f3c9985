import json
import os
import random
import subprocess
from concurrent.futures import ThreadPoolExecutor
from vc import main, PY, VERIF, CheckError

PROCS, SIGS = ("p1", "p2", "p3"), ("s1", "s2")
CONST = 'CONSTANTS Procs = {"p1", "p2", "p3"} Sigs = {"s1", "s2"} MaxTicks = 1 MaxFails = %d MaxKills = %d\n'
GEN = "SPECIFICATION GSpec\n" + CONST % (2, 1) + "CONSTANT MaxSteps = %d\nCHECK_DEADLOCK FALSE\n"
TRACE = "SPECIFICATION TSpec\n" + CONST % (999, 999) + "CONSTRAINT Progress\nPOSTCONDITION Report\nCHECK_DEADLOCK FALSE\n"
UNITS = [("-shared", "path"), ("-L/opt/lib", "path"), ("-Wl,-rpath,/opt/lib", "path"), ("-L/other", "path"), ("-lfoo", "o"), ("-lbar", "o"),
         ("-arch x86_64", "o"), ("-arch arm64", "o"), ("-Wl,-rpath -Wl,/a", "o"), ("-Wl,-rpath -Wl,/b", "o"), ("-framework A", "o"), ("-framework B", "o"),
         ("-isysroot /sdk", "o"), ("-bundle", "path"), ("-Wl,--start-group", "o"), ("-Wl,--end-group", "o"), ("-Xlinker -z", "o"), ("-Xlinker now", "o")]
KIND = {t: k for u, k in UNITS for t in u.split()}


def tokens(cmd):
    return [{"k": KIND.get(t, "path" if t.startswith(("-L", "-Wl,-rpath,")) else "o"), "v": t} for t in cmd.split()]


def hosts(jobs, n=8, version=None):
    """answers of the jobs, played by n hosts"""
    parts = [jobs[k::n] for k in range(min(n, len(jobs)))]

    def one(part):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
        p = subprocess.run([PY, str(VERIF / "drivers/jit_host.py")] + ([version] if version else []), text=True, env=env,
                           input="".join(json.dumps(j) + "\n" for j in part), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=700)
        r = [json.loads(x) for x in p.stdout.splitlines() if x.startswith("{")]
        return r, None if len(r) == len(part) else p.stderr[-2500:]
    with ThreadPoolExecutor(len(parts)) as ex:
        outs = list(ex.map(one, parts))
    res = [None] * len(jobs)
    for k, (r, err) in enumerate(outs):
        for j, x in enumerate(r):
            res[k + j * n] = x
    return res, [e for _, e in outs if e]


def run(c):
    c.tlc("JitCache", workers=8)
    c.tlc("JitCache", "JitCacheLive.cfg", workers=8)
    rng = random.Random(c.seed * 7 + 3)
    n = c.pick(400, 4000)
    scripts = c.generate("JitCacheGen", cfg_text=GEN % 22, workers=1, args=("-simulate", f"num={n}", "-depth", "40", "-seed", str(c.seed)))
    jobs = []
    for k, s in enumerate(scripts):
        raw = " ".join(["gcc"] + [u for u, _ in rng.choices(UNITS, k=rng.randint(0, 12))]) if rng.random() < .9 else None
        user = None if rng.random() < .7 else " ".join(["myld"] + [u for u, _ in rng.choices(UNITS, k=rng.randint(0, 6))])
        jobs.append({"script": s, "dir": str(c.tmp / f"jit{k}"),
                     "setup": {"raw": raw, "user": user, "options": rng.choice([{}, {"epsilon": 1e-5}, {"scalar_type": "float32"}]),
                               "jit": rng.choice([None, None, {"cffi_verbose": True}, {"cffi_libraries": ["blas"]}, {"cffi_extra_compile_args": ["-O3", "-g"]}])}})
    res, errs = hosts(jobs)
    if errs:
        if any("Traceback" in e for e in errs):
            raise CheckError("jit_host: " + errs[0])
    obs, reps, traces, treps = [], [], [], []
    for job, r in zip(jobs, res):
        if r is None:
            continue
        if r["stuck"]:
            c.violation("a compilation does not end", {"job": job, "result": r})
            continue
        traces.append(r["events"])
        treps.append({"setup": job["setup"], "events": r["events"]})
        cmd = job["setup"]["user"] if job["setup"]["user"] is not None else job["setup"]["raw"]
        for used in r["links"]:
            eff = used if used is not None else job["setup"]["raw"]
            obs.append({"op": "link", "res": tokens(eff or ""), "cmd": tokens(cmd or "")})
            reps.append({"setup": job["setup"], "used": used})
    bad = judge_traces(c, traces)
    for b, at in bad:
        c.violation("a history of the kernel cache is not one of the specification", {"rejected event": at, **treps[b]})
    # names
    combos = []
    for mark in ("a", "b", "c"):
        for o in ({}, {"epsilon": 1e-5}, {"epsilon": 1e-6}, {"scalar_type": "float32"}, {"sum_factorization": True}, {"part": "diagonal"}):
            for j in ({}, {"cffi_extra_compile_args": ["-O0"]}, {"cffi_debug": True}, {"timeout": 5}, {"cffi_verbose": True}):
                combos.append((mark, o, j, "/shim/dir"))
    combos += [(*x[:3], "/shim/other") for x in rng.sample(combos, 20)]
    combos = combos + rng.sample(combos, 20)

    def key(v, m, o, j, shim):
        o = {"scalar_type": "float64", "epsilon": 1e-14, "sum_factorization": False} | o
        return json.dumps([v, m, shim, sorted(o.items()), j.get("cffi_extra_compile_args", ["-O2"]), j.get("cffi_debug", False)])
    items = []
    for v in ("0.3.0", "0.3.1", "0.3.0"):
        rng.shuffle(combos)
        (r,), errs = hosts([{"combos": combos, "dir": str(c.tmp / f"names{len(items)}")}], 1, v)
        if r is None:
            raise CheckError("jit_host: " + errs[0])
        if "error" in r:
            c.violation("a form cannot be compiled", r)
            continue
        if not r["nocache"]:
            c.violation("without a cache folder a form is not compiled anew", {})
        items += [{"key": key(v, *co), "name": x["name"], "plain": x["plain"], "itg": x["itg"]} for co, x in zip(combos, r["names"])]
    obs.append({"op": "names", "items": items})
    reps.append({"items": items})
    c.sample(treps[0] if treps else "none")
    c.extra["histories"] = len(traces)
    c.extra["events"] = sum(map(len, traces))
    c.extra["compilations"] = sum(o["op"] == "link" for o in obs)
    what = {"link": "kernels are linked with another command", "names": "modules of different kernels share a name, or equal ones do not"}
    for b in c.judge("JitJudge", obs, cfg="Judge.cfg", chunk=1000):
        c.violation(what[obs[b]["op"]], reps[b])


def judge_traces(c, traces):
    """(index, rejected event) of the histories the acceptor rejects"""
    out = []
    import tempfile
    import re
    chunks = [list(range(k, min(k + 250, len(traces)))) for k in range(0, len(traces), 250)]

    def go(ch):
        f = tempfile.NamedTemporaryFile("w", dir=c.tmp, suffix=".json", delete=False)
        for k in ch:
            f.write(json.dumps(traces[k]) + "\n")
        f.close()
        return c.tlc("JitCacheTrace", cfg_text=TRACE, env={"OBS": f.name}, workers=1)
    with ThreadPoolExecutor(6) as ex:
        for ch, r in zip(chunks, ex.map(go, chunks)):
            o = r.out
            if '"DONE"' not in o:
                raise CheckError("JitCacheTrace: " + o[-2000:])
            for m in re.finditer(r'<<"BAD", (\d+), (\d+)>>', o):
                k = ch[int(m[1]) - 1]
                out.append((k, int(m[2])))
    c.traces += len(traces)
    return out


main("C19", run)
