import sys
sys.path.insert(0, "stubs")
import ffcx_mini  # noqa: E402
import petsc_mini  # noqa: E402
ffcx_mini.install(petsc_mini.install)
import random  # noqa: E402
import numpy as np  # noqa: E402
import formcases  # noqa: E402
import kernelworld as kw  # noqa: E402
from pycheck import call  # noqa: E402
from vc import main  # noqa: E402

GEN = "SPECIFICATION GSpec\nCONSTANTS NForms = 2 MaxOps = %d MaxHeld = %d MaxNow = %d\nCHECK_DEADLOCK FALSE\n"
TRACE = "SPECIFICATION TSpec\nCONSTANTS NForms = 2 MaxOps = 999 MaxHeld = 99 MaxNow = 999\nCONSTRAINT Progress\nPOSTCONDITION Report\nCHECK_DEADLOCK FALSE\n"
PICK = ("cell", "type", "mixed", "ratio", "cols", "cstd", "V", "I", "quads")


class Player:
    """plays a script against real CustomForms (over stand-in domains) and the real problems, and records what happens"""

    def __init__(self, cases, script):
        """cases: [[(case, itg)...] of the bilinear form, ... of the linear form]"""
        from qugar.dolfinx import petsc
        from qugar.dolfinx.forms import CustomForm
        self.petsc, self.cases, self.script = petsc, cases, script
        self.bits, self.arrays, self.array_ids = {}, [], {}
        self.forms = []
        for group in cases:
            fs = []
            for case, itg in group:
                d = case.dolfinx_form()
                fs.append(None if itg is None else CustomForm(d._cpp_object, case.world, itg, d._ufcx_form))
            self.forms.append(fs)
        self.single = [len(g) == 1 for g in cases]
        self.desc = [[self.describe(f, *ci) for f, ci in zip(fs, group)] for fs, group in zip(self.forms, cases)]

    def word(self, b):
        return self.bits.setdefault(b, len(self.bits))

    def words(self, a):
        f = np.ascontiguousarray(a).view(np.float32 if a.dtype in (np.float32, np.complex64) else np.float64).reshape(-1)
        raw, s = f.tobytes(), f.itemsize
        return [self.word(raw[k:k + s]) for k in range(0, len(raw), s)]

    def describe(self, form, case, itg):
        """the layout of the arrays of one form"""
        if form is None:
            return {"itgs": []}
        packed = case.plain(form.pack_coefficients())
        if set(packed) != set(case.domains):
            raise AssertionError("coefficients of the wrong integrals are packed")
        itgs = []
        for key in sorted(case.domains, key=str):
            r = formcases.pack_record(case, key, packed[key], itg)
            if r is None:
                raise AssertionError("the quadratures of an integral are not those of its integrands")
            a = packed[key]
            itgs.append({k: r[k] for k in PICK} | {"ents": [0] * len(r["ents"]), "bits": self.words(a), "std": [],
                                                  "olen": max(1, 8 // np.dtype(case.form.npr).itemsize)})
        return {"itgs": itgs}

    def note_version(self):
        """standard values of all the forms, as they are now"""
        for fs, ds in zip(self.cases, self.desc):
            for (case, itg), d in zip(fs, ds):
                for key, r in zip(sorted(case.domains, key=str) if itg is not None else [], d["itgs"]):
                    sides = 2 if key[0] == "interior_facet" else 1
                    std = case.std[key]
                    r["std"].append([self.words(std[e * sides:(e + 1) * sides]) for e in range(case.domains[key].shape[0])])

    def intern(self, arr):
        """numbers of the arrays of a form or of a list of forms"""
        r = []
        for one in arr if isinstance(arr, list) else [arr]:
            plain = {(k[0].name, k[1]): v for k, v in one.items()} if isinstance(one, dict) else {}
            t = [self.words(plain[k]) for k in sorted(plain, key=str)]
            r.append(self.array_ids.setdefault(str(t), len(self.array_ids) + 1))
            if len(self.array_ids) > len(self.arrays):
                self.arrays.append(t)
        return r

    def which(self, a):
        """1: the bilinear form, 2: the linear one, 0: neither"""
        for k, f in enumerate(self.given):
            if a is f:
                return k + 1
        return 0

    def log(self):
        ev = []
        for x in petsc_mini.LOG:
            if x[0] == "add":
                ids = [] if x[3] is None else self.intern(x[3])
                ev.append({"op": "add", "o": x[1], "f": self.which(x[2]), "ids": ids, "bcs": x[4] is None or self.same_bcs(x[4])})
            elif x[0] == "lift":
                a = x[1]
                one = isinstance(a, list) and len(a) == 1
                ids = self.intern(x[2]) if isinstance(x[2], list) else []
                ok = one and isinstance(x[3], list) and len(x[3]) == 1 and self.same_bcs(x[3][0])
                ev.append({"op": "lift", "f": self.which(a[0]) if one else 0, "ids": ids, "bcs": ok, **self.at(x[4], x[5])})
            elif x[0] == "bc":
                ev.append({"op": "bc", "k": x[1], **self.at(x[2], x[3])})
            elif x[0] == "ghost":
                ev.append({"op": "ghost", "add": x[1]})
            elif x[0] in ("zero", "final"):
                ev.append({"op": x[0], "o": x[1]})
            else:
                ev.append({"op": x[0]})
        petsc_mini.LOG.clear()
        return ev

    def at(self, x0, alpha):
        x0 = x0[0] if isinstance(x0, (list, tuple)) and len(x0) == 1 else x0
        return {"x0": "x" if x0 is self.x else "none" if x0 is None else "?", "alpha": int(alpha)}

    def same_bcs(self, bcs):
        return len(bcs) == len(self.bcs) and all(a is b for a, b in zip(bcs, self.bcs))

    def play(self):
        """(events, None) or (events, error)"""
        a, L = (fs[0] if one else fs for fs, one in zip(self.forms, self.single))
        self.given = [a, L]
        self.x = petsc_mini.Vec()
        self.bcs = [petsc_mini.Bc(k + 1) for k in range(self.script["nbc"])]
        handles = {}
        self.petsc.form_custom = lambda f, **k: handles[id(f)]
        space = kw._NS(mesh=kw._NS(comm=None))
        ufl_a = kw._NS(arguments=lambda: [kw._NS(ufl_function_space=lambda: space)] * 2)
        ufl_L = kw._NS()
        handles[id(ufl_a)], handles[id(ufl_L)] = a, L
        u = petsc_mini.Function(space)
        linear = self.petsc.LinearProblem(ufl_a, ufl_L, bcs=self.bcs, u=u)
        nonlinear = self.petsc.NonlinearProblem(ufl_L, u, bcs=self.bcs, J=ufl_a)
        petsc_mini.LOG.clear()
        self.note_version()
        b, A = petsc_mini.Vec(), petsc_mini.Mat()
        held, events = [], []

        def add(e):
            events.append(e)
        for o in self.script["ops"]:
            err, op = None, o["op"]
            if op == "change":
                for fs in self.cases:
                    for case, itg in fs:
                        case.new_standard()
                self.note_version()
            elif op == "pack":
                r, err = call(self.petsc._pack_coefficients, self.given[o["f"] - 1])
                held.append((o["f"], r))
            elif op == "update":
                f, old = held[o["k"] - 1]
                r, err = call(self.petsc._update_coefficients, self.given[f - 1], old)
                held[o["k"] - 1] = (f, r)
            else:
                add({"op": op})
                fn = linear.solve if op == "solve" else (lambda: nonlinear.F(self.x, b)) if op == "F" else (lambda: nonlinear.J(self.x, A))
                _r, err = call(fn)
                events.extend(self.log())
            if err is not None:
                return events, f"{op} failed: {err}"
            add({"op": op if op in ("change", "pack", "update") else "end", **{k: v for k, v in o.items() if k != "op"},
                 "held": [self.intern(r) for _f, r in held]})
        return events, None

    def record(self, events):
        return kw.plain_ints({"nbc": self.script["nbc"], "forms": self.desc, "arrays": self.arrays, "events": events})


def run(c):
    c.tlc("CoeffHistory", workers=8, cfg_text=None if not c.thorough else
          "SPECIFICATION Spec\nCONSTANTS NForms = 2 MaxOps = 6 MaxHeld = 3 MaxNow = 2\nINVARIANT Current\nPROPERTY Kept\nCHECK_DEADLOCK FALSE\n")
    scripts = []
    for k, (n, held, now) in enumerate([(10, 3, 3), (16, 4, 6), (6, 1, 4)]):
        scripts += c.tlc("CoeffHistoryGen", workers=1, count=False, cfg_text=GEN % (n, held, now),
                         args=["-simulate", f"num={c.pick(60, 900)}", "-depth", "40", "-seed", c.seed * 5 + k]).cases
    rng = random.Random(c.seed)
    sk = iter(formcases.skeletons(c, 4 * len(scripts), c.seed * 23, keep=lambda s: s["ents"] <= 3 and len(s["shape"]) <= 2))
    recs, meta, n, lists = [], [], 0, 0
    for s in scripts:
        sizes = [1, 1] if rng.random() < 0.7 else [rng.choice([1, 2]), 2]
        lists += sizes != [1, 1]
        cases = []
        for m in sizes:
            group = []
            for _ in range(m):
                n += 1
                group.append(formcases.make(c, next(sk), f"h{n}", 9000 + n))
            if m == 2 and rng.random() < 0.4:
                group[rng.randrange(2)] = (group[0][0], None)        # an empty form
            cases.append(group)
        p, err = call(Player, cases, s)
        if err is not None:
            c.violation(f"packing the coefficients failed: {err}", {"script": s})
            continue
        events, err = p.play()
        if err is not None:
            c.violation(err, {"script": s, "specs": [[ca.form.spec for ca, _i in g] for g in cases]})
            continue
        recs.append(p.record(events))
        meta.append({"script": s, "specs": [[ca.form.spec for ca, _i in g] for g in cases]})
    for b in c.judge("CoeffHistoryTrace", recs, cfg_text=TRACE, chunk=30):
        c.violation("the coefficients assembled or kept are not those of their time", {**meta[b], "events": recs[b]["events"]})
    c.extra["histories"] = len(recs)
    c.extra["operations"] = sum(len(r["events"]) for r in recs)
    c.extra["histories_with_lists_of_forms"] = lists
    c.sample(scripts[0])
    c.assumptions.append("PETSc and dolfinx.fem.petsc are stand-ins that log what is added to A and b and with which packed arrays")


main("C08", run)
