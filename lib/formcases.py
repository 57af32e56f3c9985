"""Form cases: skeletons enumerated by TLC, filled in at random with a form, a world of entities and values."""
import random

import numpy as np

import kernelworld as kw

_all = {}


def skeletons(c, n, seed, keep=lambda s: True):
    """n skeletons among those TLC enumerates, spread over cells, shapes and statuses"""
    if "all" not in _all:
        _all["all"] = sorted(c.tlc("FormCases", workers=1).cases, key=str)
    rng = random.Random(seed)
    groups = {}
    for s in _all["all"]:
        if keep(s):
            groups.setdefault((s["cell"], str(s["shape"]), s["mixed"], s["unf"]), []).append(s)
    keys = sorted(groups)
    rng.shuffle(keys)
    out = []
    while len(out) < n:
        for k in keys:
            if len(out) < n:
                out.append(rng.choice(groups[k]))
    return out


def form_of(rng, s, tag, **kwargs):
    return kw.random_form(rng, tag, cell=s["cell"], itypes=[t for t, _n in s["shape"]], groups=[list(x) for x in s["shape"]], real=s["real"],
                          cplx=s["cplx"], mixed=s["mixed"], unf=s["unf"], one_rule="single" if s["single"] else None, **kwargs)


def case_of(rng, s, form, **kwargs):
    w = kw.World(s["cell"], int(rng.integers(1 << 30)), n_cells=max(6, s["ents"] + 2), statuses=s["st"], max_pts=s["pts"], **kwargs)
    return kw.Case(form, w, int(rng.integers(1 << 30)), n_entities=s["ents"])


def make(c, s, tag, seed, world=None, **kwargs):
    """(case, integral data); the generated code is in case.form.new_code"""
    rng = np.random.default_rng([seed, c.seed])
    form = form_of(rng, s, tag, **kwargs)
    _code, itg = form.generate()
    return case_of(rng, s, form, **(world or {})), itg


def real_view(a):
    """(reals as integers or BIG, integers starting at every real)"""
    f = np.ascontiguousarray(a).view(np.float32 if a.dtype in (np.float32, np.complex64) else np.float64).reshape(-1)
    v = [int(x) if np.isfinite(x) and x == np.rint(x) and abs(x) < 1e6 else kw.BIG for x in f.astype(float)]
    raw = f.tobytes()
    s = f.itemsize
    i = []
    for k in range(f.size):
        b = raw[k * s:k * s + 8]
        n = int.from_bytes(b, "little", signed=True) if len(b) == 8 else kw.BIG
        i.append(n if abs(n) < 1_000_000_000 else kw.BIG)
    return v, i


def wanted(case):
    r = []
    for key, dom in case.domains.items():
        g = case.form.groups[case.pos[key][0]]
        ids = [eid(e) for e in (kw.entity_of(key[0], row) for row in dom) if case.world.status(key[0], e) == "cut"]
        for q in g["order"]:
            r.append({"kind": "unf" if case.unf(q) else kw.KIND[key[0]], "deg": case.max_degree(q), "ids": ids})
    return r


def requested(case):
    return [{"kind": k, "deg": d, "ids": [eid(x if len(x) > 1 else x[0]) for x in ids]} for k, d, ids in case.world.calls]


def pack_record(case, key, arr, itg):
    """recording of the packed array of one integral for PackJudge"""
    f, w = case.form, case.world
    gi, _id = case.pos[key]
    g = f.groups[gi]
    dom = case.domains[key]
    by_name = {f.rules[r]["id"]: r for r in g["order"]}
    data = [d for d in itg if d.name == g["name"]]
    rules = [by_name.get(q.name, None) for q in data[0].quad_data_FE_tables] if data else []
    if None in rules or sorted(rules) != sorted(g["order"]):
        return None
    kind = kw.KIND[key[0]]
    quads = [{"unf": case.unf(r), "kind": "unf" if case.unf(r) else kind, "deg": case.max_degree(r)} for r in rules]
    std = case.std[key]
    sides = f.sides(g)
    ents = []
    for e in range(dom.shape[0]):
        ent = kw.entity_of(key[0], dom[e])
        mode = w.status(key[0], ent)
        _xs, lf, pm = case.entity(key, e)
        q = []
        if mode == "cut":
            for k in quads:
                p, wt, nr = w.quad(k["kind"], k["deg"], ent)
                q.append({"p": kw.ints(p), "w": kw.ints(wt), "n": kw.ints(nr)})
        ents.append({"mode": mode, "lf": lf, "pm": pm, "q": q})
    v, i = real_view(arr)
    ok = arr.dtype == std.dtype and arr.ndim == 2
    return kw.plain_ints({
        "cell": f.cell, "type": key[0], "mixed": any(t.codim for t in g["tables"] if t.name in g["code"]), "ratio": 2 if f.cplx else 1,
        "cols": arr.shape[1] if ok else 0, "cstd": std.shape[1], "V": v, "I": i, "quads": quads, "ents": ents,
        "std": [real_view(std[e * sides:(e + 1) * sides])[0] for e in range(dom.shape[0])],
        "reqs": requested(case), "want": wanted(case)})


def eid(ent):
    return int(ent) if np.ndim(ent) == 0 else int(ent[0]) * 16 + int(ent[1])


def assemble(c, shim, cases, unit=1, what="the element tensor is not what the form means", opt="-O1", chunk=60):
    """cases: {tag: (case, packed)}: runs the kernels over all the entities and lets TLC judge the tensors; (records, meta)"""
    res = kw.run_cases(c, shim, cases, opt=opt)
    recs, meta, rej = [], [], 0
    for tag, key, e, A0, A1 in res:
        case = cases[tag][0]
        try:
            recs.append(case.record(key, e, A0, A1, unit=unit))
        except kw.Reject:
            rej += 1
            continue
        meta.append((tag, key, e))
    for b in c.judge("KernelJudge", recs, cfg="Judge.cfg", chunk=chunk):
        tag, key, e = meta[b]
        case = cases[tag][0]
        c.violation(what, {"form": tag, "integral": list(map(str, key)), "entity": e, "mode": recs[b]["mode"], "cell": case.form.cell,
                           "group": {k: v for k, v in case.form.groups[case.pos[key][0]].items() if k in ("type", "ids", "order", "style", "integrands")},
                           "spec": case.form.spec, "A0": recs[b]["A0"], "A1": recs[b]["A1"]})
    c.extra["tensors_too_large_to_judge"] = c.extra.get("tensors_too_large_to_judge", 0) + rej
    return recs, meta
