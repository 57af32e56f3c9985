"""Plays scripts of spec/ShimScripts.tla against the real shim cache."""
from __future__ import annotations

import json
import os
import queue
import random
import re
import shutil
import signal
import subprocess
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

from vc import PY, REPO, VERIF, Check

STUCK_S = 20.0
BLOCK_S = 0.08


class Host:
    def __init__(self, name, root, env, events):
        self.name = name
        self.p = subprocess.Popen([PY, "-S", "-E", "-B", str(VERIF / "drivers/shim_host.py"), str(root)],
                                  env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, text=True, bufsize=1)
        self.pid = self.p.pid
        self.events = events
        self.dead = False
        if json.loads(self.p.stdout.readline() or "{}").get("ev") != "ready":
            raise RuntimeError("host did not start")
        threading.Thread(target=self._read, daemon=True).start()

    def _read(self):
        for line in self.p.stdout:
            try:
                e = json.loads(line)
            except ValueError:
                continue
            e["h"] = self.name
            e["pid"] = self.pid
            self.events.put(e)

    def send(self, s):
        self.p.stdin.write(s + "\n")
        self.p.stdin.flush()


class Player:
    """Runs one script; `log` is the recording."""

    def __init__(self, root: Path, work: Path, rng: random.Random):
        self.root, self.work, self.rng = root, work, rng
        self.cache = work / "not/there/yet"
        self.ctl = work / "ctl"
        self.ctl.mkdir(parents=True)
        self.env = {"PATH": os.environ["PATH"], "HOME": str(work), "CXX": str(VERIF / "drivers/fakecxx.py"),
                    "QUGAR_SHIM_CACHE": str(self.cache), "FAKE_CTL": str(self.ctl)}
        self.q: queue.Queue = queue.Queue()
        self.hosts: dict[str, Host] = {}
        self.log: list[dict] = []
        self.pending: set = set()
        self.jobs: dict[int, dict] = {}   # compiler pid -> {id, h, orphan}
        self.njobs = 0
        self.stuck = False
        self.ver = 1

    # observation ----------------------------------------------------------
    def _poll(self):
        new = 0
        for f in sorted(self.ctl.glob("job.*")):
            if f.suffix == ".tmp":
                continue
            pid = int(f.name.split(".")[1])
            if pid in self.jobs:
                continue
            ppid, ver = map(int, f.read_text().split())
            h = next((n for n, x in self.hosts.items() if x.pid == ppid), "h?")
            self.njobs += 1
            self.jobs[pid] = {"id": self.njobs, "h": h, "orphan": False, "live": True}
            self.log.append({"ev": "cstart", "h": h, "job": self.njobs, "ver": ver - self.base})
            new += 1
        while True:
            try:
                e = self.q.get_nowait()
            except queue.Empty:
                break
            hst = self.hosts.get(e["h"])
            if hst is None or hst.pid != e["pid"]:
                continue
            key = (e["h"], e["t"])
            if key in self.pending:
                self.pending.discard(key)
                r = {"ev": e["ev"], "h": e["h"], "t": e["t"]}
                if e["ev"] == "ret":
                    r["kind"], r["ver"] = e["kind"], e["ver"] - self.base
                else:
                    r["err"] = e.get("err", "")
                self.log.append(r)
                new += 1
        return new

    def active(self):
        return [(p, j) for p, j in self.jobs.items() if j["live"] and not j["orphan"]]

    def orphans(self):
        return [(p, j) for p, j in self.jobs.items() if j["live"] and j["orphan"]]

    def settle(self):
        """Wait until nothing more can happen by itself."""
        t0 = time.time()
        last = time.time()
        while True:
            if self._poll():
                last = time.time()
            if not self.pending:
                break
            if self.active() and time.time() - last > BLOCK_S:
                break
            if time.time() - t0 > STUCK_S:
                self.log.append({"ev": "stuck"})
                self.stuck = True
                break
            time.sleep(0.002)
        self.look()

    def look(self):
        libs = list(self.cache.glob("lib*.so"))
        if not libs:
            k, v = "none", 0
        else:
            try:
                s = libs[0].read_text()
                k = "full" if s.endswith("@end") else "partial"
                m = re.search(r"@built (\d+)", s)
                v = int(m.group(1)) - self.base if m else 0
            except FileNotFoundError:
                k, v = "none", 0
        self.log.append({"ev": "look", "kind": k, "ver": v})

    # control ----------------------------------------------------------------
    def host(self, h):
        if h not in self.hosts:
            self.hosts[h] = Host(h, self.root, self.env, self.q)
        return self.hosts[h]

    def end_job(self, pid, how):
        j = self.jobs[pid]
        j["live"] = False
        tmp = self.ctl / f"tmp.{pid}"
        tmp.write_text(how)
        self.log.append({"ev": "cdone" if how == "ok" else "cfail", "job": j["id"]})
        os.rename(tmp, self.ctl / f"go.{pid}")
        end = self.ctl / f"end.{pid}"
        t0 = time.time()
        while not end.exists() and time.time() - t0 < STUCK_S:
            time.sleep(0.002)

    def edit(self, which):
        time.sleep(0.012)
        self.ver += 1
        f = self.root / "dolfinx/_shim" / ("qugar_basix_shim.cpp" if which == "shim" else "__init__.py")
        mark = "//" if which == "shim" else "#"
        with open(f, "a") as fh:
            fh.write(f"{mark} @ver {self.ver + self.base}\n")
        time.sleep(0.012)
        self.log.append({"ev": "edit"})

    def kill(self, h, withjob):
        if h not in self.hosts:
            return
        hst = self.hosts.pop(h)
        busy = any(k[0] == h for k in self.pending)
        os.kill(hst.pid, signal.SIGKILL)
        hst.p.wait()
        self._drain_dead(hst)
        busy_now = {k for k in self.pending if k[0] == h}
        self.pending -= busy_now
        for pid, j in self.jobs.items():
            if j["live"] and j["h"] == h and not j["orphan"]:
                j["orphan"] = True
                if withjob:
                    j["live"] = False
                    try:
                        os.kill(pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
        self.log.append({"ev": "kill" if busy_now else "killidle", "h": h})

    def _drain_dead(self, hst):
        # events already written by the killed host count as having happened
        time.sleep(0.01)
        self.hosts[hst.name] = hst
        self._poll()
        del self.hosts[hst.name]

    def step(self, s):
        if s[0] == "call":
            key = (s[1], s[2])
            if key in self.pending:
                return
            hst = self.host(s[1])
            self.pending.add(key)
            self.log.append({"ev": "call", "h": s[1], "t": s[2]})
            hst.send(f"call {s[2]}")
        elif s[0] in ("finish", "fail"):
            act = self.active()
            if not act:
                return
            how = "ok" if s[0] == "finish" else self.rng.choice(["fail", "failrm"])
            self.end_job(act[0][0], how)
        elif s[0] == "orphan":
            o = self.orphans()
            if not o:
                return
            self.end_job(o[0][0], "ok")
        elif s[0] in ("kill", "killall"):
            self.kill(s[1], s[0] == "killall")
        elif s[0] == "edit":
            self.edit(s[1])
        self.settle()

    def play(self, script):
        txt = "".join((self.root / "dolfinx/_shim" / f).read_text()
                      for f in ("qugar_basix_shim.cpp", "__init__.py"))
        vs = [int(x) for x in re.findall(r"@ver (\d+)", txt)]
        self.base = max(vs, default=0) - 1     # version 1 of this script is the present one
        try:
            for s in script:
                self.step(s)
                if self.stuck:
                    return self.log
            for _ in range(12):
                if not self.pending and not self.orphans():
                    break
                if self.active():
                    self.step(("finish",))
                elif self.orphans():
                    self.step(("orphan",))
                else:
                    self.settle()
                if self.stuck:
                    break
            # one more call each: the cache still works
            if not self.stuck:
                for h in ("h1", "h2"):
                    self.step(("call", h, "t1"))
                    for _ in range(3):
                        if self.active():
                            self.step(("finish",))
            return self.log
        finally:
            for h in self.hosts.values():
                try:
                    os.kill(h.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                h.p.wait()
            for pid, j in self.jobs.items():
                if j["live"]:
                    try:
                        os.kill(pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass


def canonical(script):
    """Rename hosts and threads in order of appearance."""
    hm: dict = {}
    tm: dict = {}
    out = []
    for s in script:
        s = list(s)
        if s[0] in ("call", "kill", "killall"):
            h = hm.setdefault(s[1], f"h{len(hm) + 1}")
            if s[0] == "call":
                m = tm.setdefault(s[1], {})
                s[2] = m.setdefault(s[2], f"t{len(m) + 1}")
            s[1] = h
        out.append(tuple(s))
    return tuple(out)


def scripts(c: Check, num: int, length: int) -> list:
    res = set()
    cfg = (VERIF / "spec/ShimScripts.cfg").read_text()
    for L in sorted({4, 6, length}):
        r = c.tlc("ShimScripts", cfg_text=cfg.replace("Len0 = 9", f"Len0 = {L}"), workers=1, count=False,
                  args=["-simulate", f"num={num}", "-depth", "120", "-seed", str(c.seed + L)])
        res |= {canonical(s) for s in r.cases}
    return sorted(res)


def run_all(c: Check, todo: list, jobs: int = 8, ids=None):
    """Returns [(script, log)]."""
    roots = queue.Queue()
    for i in range(jobs):
        root = Path(tempfile.mkdtemp(dir=c.tmp)) / "qugar"
        shutil.copytree(REPO / "python/qugar", root, ignore=shutil.ignore_patterns("__pycache__", "*.so"))
        with open(root / "dolfinx/_shim/qugar_basix_shim.cpp", "a") as fh:
            fh.write("// @ver 1\n")
        roots.put(root)

    def one(arg):
        i, s = arg
        root = roots.get()
        work = c.tmp / f"run{i}-{time.time_ns()}"
        work.mkdir()
        try:
            return s, Player(root, work, random.Random(f"{c.seed}-{ids[i] if ids else i}")).play(s)
        finally:
            roots.put(root)
            shutil.rmtree(work, ignore_errors=True)

    with ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(one, enumerate(todo)))


def check(c: Check, judge_module: str, n_quick: int, n_thorough: int):
    all_s = scripts(c, c.pick(400, 4000), c.pick(9, 11))
    rng = random.Random(c.seed)
    # keep every kind of step well represented
    rng.shuffle(all_s)
    todo = all_s[:c.pick(n_quick, n_thorough)]
    res = run_all(c, todo)
    bad = c.judge(judge_module, [log for _, log in res], chunk=100)
    c.extra["scripts"] = len(todo)
    c.extra["events"] = sum(len(l) for _, l in res)
    c.extra["compiles"] = sum(e["ev"] == "cstart" for _, l in res for e in l)
    c.extra["kills"] = sum(e["ev"] == "kill" for _, l in res for e in l)
    c.extra["compile_failures"] = sum(e["ev"] == "cfail" for _, l in res for e in l)
    for s, l in res[:3]:
        c.sample({"script": s, "recording": l})
    if bad:
        # confirm on a second run of the same scripts
        again = run_all(c, [res[i][0] for i in bad[:6]], jobs=2, ids=bad[:6])
        bad2 = c.judge(judge_module, [log for _, log in again], chunk=100)
        for k in bad2:
            c.violation(f"recording of the shim cache rejected by {judge_module}",
                        {"script": again[k][0], "recording": again[k][1]})
        if not bad2:
            c.extra["unconfirmed_rejections"] = [res[i] for i in bad[:6]]
