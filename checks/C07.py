import sys
sys.path.insert(0, "stubs")
import ffcx_mini  # noqa: E402
ffcx_mini.install()
import random  # noqa: E402
import numpy as np  # noqa: E402
import formcases  # noqa: E402
import kernelworld as kw  # noqa: E402
import shimlib  # noqa: E402
from pycheck import ask, call  # noqa: E402
from vc import main  # noqa: E402


def run(c):
    shim = shimlib.build(c)
    rng = random.Random(c.seed)
    what = "the element tensor is not the form evaluated at the entity's own points"

    def go(tag, s, seed, **kwargs):
        case, itg = formcases.make(c, s, tag, seed, **kwargs)
        packed = ask(c, "packing the coefficients failed", {"skeleton": s, "spec": case.form.spec}, case.packer(itg).pack_coefficients)
        return None if packed is None else (case, case.plain(packed))
    total, n = {}, 0
    for rep in range(c.pick(1, 8)):
        # forms of many terms over integer-valued elements: exact
        cases = {}
        for s in formcases.skeletons(c, c.pick(90, 260), c.seed * 11 + rep, keep=lambda s: "cut" in s["st"] and s["pts"] == 3):
            n += 1
            cases[f"e{n}"] = go(f"e{n}", s, 3000 + n, max_terms=4)
        recs, _ = formcases.assemble(c, shim, {k: v for k, v in cases.items() if v}, what=what)
        total["exact"] = total.get("exact", 0) + len(recs)
        c.sample({k: recs[0][k] for k in ("mode", "R", "C", "A0", "A1")})
        # one test function of any other element: up to rounding
        cases = {}
        sk = formcases.skeletons(c, c.pick(110, 300), c.seed * 13 + rep, keep=lambda s: "cut" in s["st"] and s["pts"] == 3 and s["ents"] == 3
                                 and not s["mixed"] and not s["single"] and len(s["shape"]) == 1)
        pool = {}
        for s in sk:
            if not pool.get(s["cell"]):
                pool[s["cell"]] = rng.sample(kw.NONINT[s["cell"]], len(kw.NONINT[s["cell"]]))
            el = pool[s["cell"]].pop()
            n += 1
            cases[f"r{n}"] = go(f"r{n}", s, 3000 + n, nonint=el, max_terms=2, world={"lo": 0, "hi": 1} if s["real"] == "f32" else None)
        recs, _ = formcases.assemble(c, shim, {k: v for k, v in cases.items() if v}, unit=1000, what=what)
        total["rounded"] = total.get("rounded", 0) + len(recs)
        # single-point rules at the midpoint: tables that look constant but are not
        cases = {}
        for s in formcases.skeletons(c, c.pick(40, 120), c.seed * 17 + rep, keep=lambda s: s["single"] and s["pts"] == 3 and "full" not in s["st"]
                                     and "cut" in s["st"] and sum(k for _t, k in s["shape"]) == 1):
            n += 1
            cases[f"m{n}"] = go(f"m{n}", s, 3000 + n, midpoint=True)
        recs, _ = formcases.assemble(c, shim, {k: v for k, v in cases.items() if v}, what=what)
        total["midpoint"] = total.get("midpoint", 0) + len(recs)
    # elements that cannot be created again from their parameters are refused
    refused = 0
    for s in formcases.skeletons(c, c.pick(40, 160), c.seed * 19, keep=lambda s: s["cell"] == "triangle" and not s["mixed"] and not s["single"]):
        rg = np.random.default_rng([n, c.seed])
        n += 1
        kind = ["custom", 1] if n % 2 else ["P", 2, {"order": [2, 0, 1, 4, 5, 3]}]
        form = formcases.form_of(rg, s, f"c{n}", nonint=kind)
        used = any(str(t.elem) == str(form.test) and t.name in g["code"] for g in form.groups for t in g["tables"])
        _r, err = call(form.generate)
        if used and err is None:
            c.violation("code is generated for an element that cannot be created again at runtime", {"spec": form.spec})
        refused += used
    # as are integrals over other entities and sum-factorized ones
    for s in formcases.skeletons(c, c.pick(20, 60), c.seed * 23, keep=lambda s: not s["mixed"]):
        n += 1
        form = formcases.form_of(np.random.default_rng([n, c.seed]), s, f"u{n}")
        data, kind = form.ffcx_data(), rng.choice(["vertex", "vertex integral", "factors"])
        e = data[1].integrals[rng.randrange(len(data[1].integrals))].expression
        if kind == "vertex":
            e.entity_type = "vertex"
        elif kind == "factors":
            rng.choice(list(e.integrand))[1].has_tensor_factors = True
        else:
            ir = data[1].forms[0]
            for d in (ir.integral_names, ir.subdomain_ids):
                d["vertex"] = d.pop(e.integral_type)
            e.integral_type, e.entity_type = "vertex", "vertex"
        form.ffcx_data = lambda data=data: data
        _r, err = call(form.generate)
        if err is None:
            c.violation(f"code is generated for an unsupported integral ({kind})", {"skeleton": s, "spec": form.spec})
        refused += 1
    c.extra["refused_forms"] = refused
    c.extra["tensors"] = total
    c.assumptions.append("FFCx and DOLFINx are replaced by stand-ins; basis functions come from basix's own Python interface")


main("C07", run)
