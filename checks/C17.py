import sys
sys.path.insert(0, "stubs")
import ffcx_mini  # noqa: E402
import ufl_mini as um  # noqa: E402
ffcx_mini.install(um.install)
import random  # noqa: E402
import types  # noqa: E402
import numpy as np  # noqa: E402
from pycheck import call  # noqa: E402
from vc import main  # noqa: E402

NS = types.SimpleNamespace
TYPES = ("cell", "exterior_facet", "interior_facet")


class Tags:
    def __init__(self, marks):
        self.marks = dict(marks)

    def find(self, i):
        return self.marks.get(i, [])


class Leaf(um.Expr):
    """argument, coefficient or constant"""

    def __init__(self, kind, number):
        super().__init__((), lambda e: np.float64(1))
        self.kind, self.number, self._cpp_object = kind, number, f"{kind}{number}"

    def ufl_function_space(self):
        return NS(_cpp_object=f"space of {self.number}")


class Ffi:
    def addressof(self, x):
        return ("address", x)

    def cast(self, what, x):
        return (what, x)


class FemForm:
    """the C++ form"""

    def __init__(self, ptrs, V, coeffs, consts, subdomains, maps, mesh):
        self.ptrs, self.V, self.coeffs, self.consts, self.subdomains, self.maps, self.mesh = ptrs, V, coeffs, consts, subdomains, maps, mesh


class Lab:
    """what qugar.dolfinx.forms meets"""

    def __init__(self, forms_mod, abc, rng):
        self.F, self.rng = forms_mod, rng
        lab = self

        class Unf(abc):
            def __init__(self, n):
                self.n = n

            def get_all_facets(self, ext_integral=True, *a, **k):
                n = self.n
                return NS(as_array=lambda: [n, 1, n, 2] if ext_integral else [n, 7])
        Unf.__abstractmethods__ = frozenset()
        self.Unf = Unf
        self.calls = []

        def jit(comm, form, form_compiler_options=None, jit_options=None):
            u = NS(num_coefficients=0, original_coefficient_positions=[], form=form)
            n = len(form.coefficients())
            pos = sorted(lab.rng.sample(range(n), lab.rng.randint(0, n)))      # the compiler drops unused coefficients
            u.num_coefficients, u.original_coefficient_positions = len(pos), pos + [999] * 2
            r = NS(comm=comm, form=form, opts=dict(form_compiler_options or {}), jopts=jit_options, ufcx=u, pos=pos,
                   itg=["itg", len(lab.calls)], module=NS(ffi=Ffi()), code=("decl", len(lab.calls)))
            lab.calls.append(r)
            return r.itg, u, r.module, r.code
        self.F.ffcx_jit = jit
        self.F.form_cpp_class = lambda dtype: (lambda *a: NS(dtype=dtype, form=FemForm(*a)))

        def packer(form, domain, itg_data):
            return NS(form=form, domain=domain, itg=itg_data)
        self.F.CustomCoeffsPacker = packer

    def marks_of(self, kind, used, base):
        """[(id, entities)...] for a type"""
        if kind == "none":
            return []
        ids = sorted(set(u for u in used if u >= 0) | set(self.rng.sample([0, 1, 2, 3, 4, 5, 6, 7], self.rng.randint(0, 4))))
        if kind == "tags" and len(ids) > 1 and self.rng.random() < .2:
            ids.remove(self.rng.choice(ids))                                   # nothing marked with this id
        return [(i, [base + i, self.rng.randrange(50)]) for i in ids]

    def raw_of(self, form, tags):
        return [{"t": i.integral_type(), "id": -1 if i.subdomain_id() == "everywhere" else int(i.subdomain_id()), "tag": tags[id(i.integrand())],
                 "marked": i.subdomain_data() is not None, "meta": sorted(f"{k}={v!r}" for k, v in i.metadata().items())} for i in form.integrals()]

    def make(self, case, num):
        """a form following a case of the enumeration"""
        rng = self.rng
        mesh = NS(comm=("comm", num))
        dom = um.MiniDomain(2, 2, mesh)
        dom.unf_domain = self.Unf(num)
        nargs = rng.choice([0, 1, 1, 2, 2])
        args = [Leaf("argument", k) for k in range(nargs)]
        coefs = [Leaf("coefficient", 10 + k) for k in range(rng.randint(0, 3))]
        consts = [Leaf("constant", 20 + k) for k in range(rng.randint(0, 2))]
        kinds = {"cell": case["cdata"], "exterior_facet": case["edata"], "interior_facet": rng.choice(["none", "tags", "list"])}
        if kinds["interior_facet"] == "none" and any(i > 0 for i in case["inter"]):
            kinds["interior_facet"] = "tags"
        ids = {"cell": case["cell"], "exterior_facet": case["ext"], "interior_facet": case["inter"]}
        marks, data = {}, {}
        for n, t in enumerate(TYPES):
            marks[t] = self.marks_of(kinds[t], ids[t], 100 * (n + 1))
            data[t] = {"none": None, "tags": Tags(marks[t]), "list": [(i, np.array(e, dtype=np.int32)) for i, e in marks[t]]}[kinds[t]]
        sparse = rng.random() < .3          # marks given only where an id is asked for
        npint = rng.random() < .3
        lit = rng.random() < .3
        terms, tags, plan = [], {}, [(t, i) for t in TYPES for i in ids[t]]
        k = 0
        while k < len(plan):
            t, i = plan[k]
            parts = rng.sample(args, len(args)) + [x for x in coefs + consts if rng.random() < .6]
            f = um.as_ufl(1.0 + k)
            for p in parts:
                f = f * p
            tags[id(f)] = k + 1
            sid = "everywhere" if i == -1 else np.int32(i) if npint and rng.random() < .7 else i
            if i == -1 and t == "exterior_facet" and lit:
                sid = -1
            md = rng.choice([None, {"quadrature_degree": 3}, {"quadrature_degree": k, "mine": "x"}])
            m = um.Measure(t, domain=dom, metadata=md, subdomain_data=None if sparse and i == -1 else data[t])
            terms.append((f, m, sid))
            k += 1
        form, keep = None, []
        for f, m, sid in rng.sample(terms, len(terms)):
            x = f * m(sid)
            keep.append((f, m))
            form = x if form is None else form + x
        return NS(form=form, tags=tags, marks=marks, mesh=mesh, dom=dom, keep=keep, args=args, coefs=coefs, consts=consts)

    def record(self, w, before, got, call_, opts, dtype, jopts, maps, err):
        """the record of one compilation; got: the CustomForm"""
        mk = {t: [{"id": int(i), "ents": [int(x) for x in e]} for i, e in w.marks[t]] for t in TYPES}
        o = {"op": "form", "raw": before, "after": self.raw_of(w.form, w.tags), "refused": err is not None}
        # marks reach DOLFINx only through an integral of the form that carries them
        for t in TYPES:
            if not any(r["t"] == t and r["marked"] for r in before):
                mk[t] = []
        if err is not None:
            return o | {"jit": [], "marks": mk, "sub": {t: [] for t in TYPES}, "all": []}
        f = got._cpp_object.form
        names = {"cell": "cell", "exterior_facet": "exterior_facet", "interior_facet": "interior_facet"}
        sub = {t: [] for t in TYPES}
        for key, lst in f.subdomains.items():
            sub[names[key.name]] = [{"id": int(i), "ents": [int(x) for x in e]} for i, e in lst]
        sp = ["space of %s" % a.number for a in w.form.arguments()]
        given = {"spaces": sp, "coeffs": [c._cpp_object for c in w.form.coefficients()], "consts": [c._cpp_object for c in w.form.constants()],
                 "maps": [m._cpp_object for m in maps or []],
                 "misc": [str(x) for x in ("uintptr_t", id(call_.ufcx), id(w.mesh), w.mesh.comm, dtype, dtype, jopts, id(w.dom.unf_domain), id(call_.itg),
                                           id(call_.ufcx), call_.code, id(call_.module), opts.get("mine"))]}
        p = got._coeffs_packer
        res = {"spaces": list(f.V), "coeffs": list(f.coeffs), "consts": list(f.consts), "maps": list(f.maps),
               "misc": [str(x) for x in (f.ptrs[0][0], id(f.ptrs[0][1][1]), id(f.mesh), call_.comm, got._cpp_object.dtype, call_.opts.get("scalar_type"),
                                         call_.jopts, id(p.domain), id(p.itg), id(got._ufcx_form), got._code, id(got._module), call_.opts.get("mine"))]}
        if len(f.ptrs) != 1 or p.form is not got:
            res["misc"].append("more")
        return o | {"jit": self.raw_of(call_.form, w.tags), "marks": mk, "sub": sub, "all": [int(x) for x in w.dom.unf_domain.get_all_facets(ext_integral=True).as_array()],
                    "given": given, "got": res, "pos": call_.pos, "diag": opts.get("part") == "diagonal" and len(sp) > 0}


def run(c):
    from qugar.dolfinx import forms as F
    from qugar.mesh.unfitted_domain_abc import UnfittedDomainABC
    c.tlc("FormCompileLaws", workers=8)
    cases = c.generate("FormCompileCases", workers=1)
    c.extra["enumerated"] = len(cases)
    rng = random.Random(c.seed * 31 + 17)
    lab = Lab(F, UnfittedDomainABC, rng)
    for n in ("FormCompileCases",):
        rng.shuffle(cases)
    obs, replays, worlds = [], [], []
    for num, case in enumerate(cases[:c.pick(4000, None)]):
        w = lab.make(case, num)
        before = lab.raw_of(w.form, w.tags)
        rounds = 2 if rng.random() < .2 else 1       # forms are compiled again (Jacobians share integrals with residuals)
        for r in range(rounds):
            dtype = rng.choice(["f64", "f32", "c128"])
            opts = rng.choice([None, {}, {"part": "full"}, {"part": "diagonal"}, {"mine": 3}])
            opts = None if opts is None else dict(opts)
            if opts and opts.get("part") == "diagonal" and not w.form.arguments():
                opts = {}
            jopts = rng.choice([None, {"cffi_extra_compile_args": 1}])
            maps = rng.choice([None, None, [NS(_cpp_object="m1"), NS(_cpp_object="m2")]])
            n0 = len(lab.calls)
            kw = {"dtype": dtype, "form_compiler_options": opts, "jit_options": jopts, "entity_maps": maps}
            got, err = call(F.form_custom, w.form, **{k: v for k, v in kw.items() if v is not None or rng.random() < .5})
            if err is None and len(lab.calls) != n0 + 1:
                err = "compiled %d times" % (len(lab.calls) - n0)
            rep = {"case": case, "options": opts, "round": r, "error": err, "form": [[i.integral_type(), str(i.subdomain_id()), repr(i.subdomain_id())] for i in w.form.integrals()]}
            o, bad = call(lab.record, w, before, got, lab.calls[-1] if lab.calls else None, opts or {}, dtype, jopts, maps, err)
            if bad is not None:
                c.violation("a compiled form lacks something", {**rep, "what": bad})
                continue
            obs.append(o)
            replays.append({**rep, "record": o})
        if len(worlds) < 30 and "refused" in obs[-1] and not obs[-1]["refused"]:
            worlds.append(w)
    # nested lists of forms, with empty ones
    for _ in range(c.pick(300, 1500)):
        tokens = []

        def nest(depth):
            if depth == 0 or rng.random() < .55:
                if rng.random() < .25:
                    tokens.append(0)
                    return um.Form([])
                k = rng.randrange(len(worlds))
                tokens.append(k + 1)
                return worlds[k].form
            tokens.append(-1)
            r = [nest(depth - 1) for _ in range(rng.randint(0, 3))]
            tokens.append(-2)
            return rng.choice([list, list, tuple])(r)
        tree = nest(3)
        got, err = call(F.form_custom, tree)
        if err is not None:
            c.violation("forms of a list cannot be compiled", {"tokens": tokens, "error": err})
            continue
        scalar = tokens[0] >= 0
        if scalar == isinstance(got, list):
            c.violation("a form became a list, or a list a form", {"tokens": tokens})
            continue
        by = {id(w.dom.unf_domain): k + 1 for k, w in enumerate(worlds)}
        res, bad = call(lambda: [0 if g is None else by[id(g._coeffs_packer.domain)] for g in ([got] if scalar else got)])
        if bad is not None:
            c.violation("the compiled forms of a list are not forms", {"tokens": tokens, "error": bad})
            continue
        obs.append({"op": "list", "tokens": tokens, "res": res})
        replays.append({"tokens": tokens, "result": res})
    c.sample(replays[0])
    c.extra["compilations"] = sum(o["op"] == "form" for o in obs)
    c.extra["refusals"] = sum(o.get("refused", False) for o in obs)
    for b in c.judge("FormCompileJudge", obs, cfg="Judge.cfg", chunk=900):
        c.violation("a compiled form does not compute what the form says", replays[b])


main("C17", run)
