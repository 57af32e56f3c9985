"""Shared machinery of every check: TLC runner, evidence, verdict reporting.

A check is a Python program run by /verif/run.sh.  It
  * model checks its TLA+ specification (bounded, exhaustive configuration),
  * lets TLC generate the cases / behaviours to replay,
  * drives the real code of /repo with them and records what happened,
  * lets TLC decide whether every recording is a behaviour of the specification.
"""
from __future__ import annotations

import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
SPEC = VERIF / "spec"
TLA = "/opt/veriftools/tla"
VENV = Path("/opt/qugar-venv")
PY = str(VENV / "bin" / "python")


class CheckError(RuntimeError):
    """The machinery itself failed (not a verdict on the code)."""


class Check:
    def __init__(self, pid: str, level: str = "model_checking"):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples: list = []
        self.extra: dict = {}
        self.assumptions: list[str] = []
        self.violations: list[tuple[str, str]] = []
        self.known_seen: list[str] = []
        self.tmp = Path(tempfile.mkdtemp(prefix=f"verif-{pid}-"))
        self.replay_dir = VERIF / "evidence" / "replay"
        self.known = load_known(pid)

    @property
    def thorough(self) -> bool:
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- TLC ---------------------------------------------------------------
    def tlc(self, module: str, cfg: str | None = None, *, cfg_text: str | None = None,
            env: dict | None = None, workers: int | str = 4, timeout: int = 800,
            expect: str = "ok", count: bool = True, heap: str = "6g", args=()):
        """Run TLC on SPEC/module.tla.  expect: "ok", "violation" (a
        sanity configuration that has to fail) or "any"."""
        meta = tempfile.mkdtemp(prefix="tlc-", dir=self.tmp)
        if cfg_text is not None:
            cfgp = Path(meta) / "gen.cfg"
            cfgp.write_text(cfg_text)
        else:
            cfgp = SPEC / (cfg or f"{module}.cfg")
        e = dict(os.environ)
        e.pop("LD_LIBRARY_PATH", None)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ["java", f"-Xmx{heap}", "-XX:+UseParallelGC", "-Xss64m",
               "-cp", f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar",
               "tlc2.TLC", "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE",
               "-config", str(cfgp), *map(str, args), str(SPEC / f"{module}.tla")]
        p = subprocess.run(cmd, cwd=meta, env=e, text=True, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
        out = p.stdout
        r = TlcResult(p.returncode, out)
        out = re.sub(r"^(Parsing file|Semantic processing|TLC2 Version).*\n", "", out, flags=re.M)
        if count:
            self.states += r.distinct
            self.transitions += r.generated
        if expect == "ok" and not r.ok:
            raise CheckError(f"TLC failed on {module} ({cfgp.name}): rc={p.returncode}\n{out[:3000]}\n...\n{out[-2500:]}")
        if expect == "violation" and not r.violation:
            raise CheckError(f"TLC sanity run on {module} ({cfgp.name}) should fail but did not: "
                             f"rc={p.returncode}\n{out[-4000:]}")
        if expect == "any" and not (r.ok or r.violation):
            raise CheckError(f"TLC error on {module} ({cfgp.name}): rc={p.returncode}\n{out[:3000]}\n...\n{out[-2500:]}")
        return r

    def generate(self, module: str, cfg: str | None = None, **kw) -> list:
        """Run a generator module; it prints cases as JSON via PrintT(<<"CASE", ToJson(..)>>)."""
        return self.tlc(module, cfg, **kw).cases

    def judge(self, module: str, obs: list, *, cfg: str | None = None, chunk: int = 4000,
              cfg_text: str | None = None,
              env: dict | None = None, timeout: int = 800, count: bool = True, jobs: int = 6) -> list[int]:
        """Let TLC judge recordings one by one: module reads IOEnv.OBS and
        prints <<"BAD", i>> for every rejected record.  Returns indices (0-based)."""
        parts = [list(range(s, min(s + chunk, len(obs)))) for s in range(0, len(obs), chunk)]

        def go(part):
            return self._judge_part(module, obs, part, cfg=cfg, cfg_text=cfg_text, env=env, timeout=timeout, count=count)
        with ThreadPoolExecutor(jobs) as ex:
            bad = [b for r in ex.map(go, parts) for b in r]
        return sorted(set(bad))

    def _judge_part(self, module, obs, part, *, cfg, cfg_text, env, timeout, count):
        bad: list[int] = []
        errors = 0
        todo = [part]
        while todo:
            part = todo.pop(0)
            f = Path(tempfile.mkdtemp(prefix="obs-", dir=self.tmp)) / "obs.ndjson"
            with open(f, "w") as fh:
                for o in part:
                    fh.write(json.dumps(prune(obs[o])) + "\n")
            en = {"OBS": f}
            en.update(env or {})
            r = self.tlc(module, cfg, cfg_text=cfg_text, env=en, workers=1, timeout=timeout, expect="none", count=count, heap="3g")
            bad += [part[int(x) - 1] for x in re.findall(r'<<"BAD", (\d+)', r.out)]
            if not r.ok:
                # the record under judgement is outside what the specification is
                # even defined for (wrong length, wrong kind of value): rejected
                at = re.findall(r"^(?:/\\ )?i = (\d+)$", r.out, re.M)
                tr = re.findall(r"^(?:/\\ )?tr = (\d+)$", r.out, re.M)
                errors += 1
                k = int(at[-1]) if at else int(tr[-1]) - 1 if tr else None
                if k is None or k >= len(part) or errors > 20 or "analysis failed" in r.out:
                    raise CheckError(f"{module} rc={r.rc}\n{r.out[:3000]}\n...\n{r.out[-2500:]}")
                bad.append(part[k])
                if at:      # judged in order
                    self.traces += k + 1
                rest = part[k + 1:] if at else part[:k] + part[k + 1:]
                if rest:
                    todo.insert(0, rest)
                continue
            done = [int(x) for x in re.findall(r'<<"DONE", (\d+)>>', r.out)]
            if not done or done[-1] != len(part):
                raise CheckError(f"{module} judged {done} of {len(part)} records\n{r.out[-3000:]}")
            self.traces += len(part)
        return bad

    # -- verdicts ----------------------------------------------------------
    def violation(self, what: str, replay) -> None:
        self.replay_dir.mkdir(parents=True, exist_ok=True)
        n = len(self.violations)
        path = self.replay_dir / f"{self.pid}-{n}.json"
        if n < 25:
            path.write_text(json.dumps({"property": self.pid, "what": what, "replay": replay},
                                       indent=1, default=str))
        else:
            path = self.replay_dir / f"{self.pid}-24.json"
        self.violations.append((what, str(path)))

    def finding_or_violation(self, key: str, what: str, replay) -> None:
        """Report unless `key` is one of the committed known findings."""
        if key in self.known:
            if key not in self.known_seen:
                self.known_seen.append(key)
                print(f"KNOWN-FINDING: property={self.pid} {key}: {self.known[key]}", flush=True)
            return
        self.violation(what, replay)

    def sample(self, x, limit: int = 5) -> None:
        if len(self.samples) < limit:
            self.samples.append(x)

    def write_evidence(self) -> None:
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "samples": self.samples or ["none"]}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 3), "violations": len(self.violations)}
        d = VERIF / "evidence"
        d.mkdir(exist_ok=True)
        tmp = d / f".{self.pid}.tmp"
        tmp.write_text(json.dumps(ev, indent=1, default=str))
        os.replace(tmp, d / f"{self.pid}.json")

    def finish(self) -> int:
        self.write_evidence()
        shutil.rmtree(self.tmp, ignore_errors=True)
        seen = set()
        for what, path in self.violations[:20]:
            line = what.splitlines()[0][:300]
            if line not in seen:
                seen.add(line)
                print(f"  {line}", flush=True)
        if self.violations:
            print(f"VIOLATION property={self.pid} replay={self.violations[0][1]}", flush=True)
            return 1
        print(f"OK property={self.pid} states={self.states} transitions={self.transitions} "
              f"traces={self.traces} wall={time.time() - self.t0:.1f}s", flush=True)
        return 0


class TlcResult:
    def __init__(self, rc: int, out: str):
        self.rc, self.out = rc, out
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated = int(m[-1][0]) if m else 0
        self.distinct = int(m[-1][1]) if m else 0
        self.ok = rc == 0
        self.violation = rc in (10, 11, 12, 13)
        self._cases = None

    @property
    def cases(self) -> list:
        if self._cases is None:
            res = []
            for m in re.finditer(r'^<<"CASE", (".*")>>$', self.out, re.M):
                res.append(json.loads(tla_string(m.group(1))))
            self._cases = res
        return self._cases

    def values(self, tag: str) -> list[str]:
        return re.findall(rf'^<<"{tag}", (.*)>>$', self.out, re.M)


def prune(o):
    """JSON for TLC: no null values."""
    if isinstance(o, dict):
        return {k: prune(v) for k, v in o.items() if v is not None}
    if isinstance(o, (list, tuple)):
        return [prune(x) for x in o]
    return o


def tla_string(s: str) -> str:
    """Decode a TLA+ string literal as TLC prints it."""
    s = s[1:-1]
    return s.replace('\\"', '"').replace("\\\\", "\\")


def load_known(pid: str) -> dict:
    f = VERIF / "known_findings.txt"
    res = {}
    if f.exists():
        for line in f.read_text().splitlines():
            line = line.strip()
            if not line.startswith("{"):          # "fixed: ..." lines suppress nothing
                continue
            d = json.loads(line)
            if d.get("property") == pid and d.get("status") == "known":
                res[d["key"]] = d["what"]
    return res


def main(pid: str, fn, level: str = "model_checking") -> None:
    c = Check(pid, level)
    try:
        fn(c)
        rc = c.finish()
    except SystemExit:
        raise
    except BaseException as e:
        traceback.print_exc()
        frames = traceback.extract_tb(e.__traceback__)
        ours = any(f.filename.startswith(str(REPO / "python" / "qugar")) for f in frames)
        # answers that cannot be read as observations of the specification
        odd = isinstance(e, (LookupError, TypeError, ValueError, AttributeError, ArithmeticError, AssertionError)) \
            and not isinstance(e, (json.JSONDecodeError, UnicodeError))
        if c.violations and isinstance(e, Exception):
            sys.exit(c.finish())
        if isinstance(e, Exception) and not isinstance(e, CheckError) and (ours or odd):
            c.violation(f"the code under test raised {type(e).__name__}: {e}", traceback.format_exc())
            sys.exit(c.finish())
        shutil.rmtree(c.tmp, ignore_errors=True)
        sys.stdout.flush()
        sys.exit(3)
    sys.exit(rc)
