import sys
sys.path.insert(0, "stubs")
import ffcx_mini  # noqa: E402
import ufl_mini as um  # noqa: E402
ffcx_mini.install(um.install)
import random  # noqa: E402
import types  # noqa: E402
import numpy as np  # noqa: E402
from pycheck import call  # noqa: E402
from vc import main  # noqa: E402

NS = types.SimpleNamespace


def near(x):
    """a real number that has to be an integer"""
    r = round(float(x))
    return r if abs(x - r) < 1e-6 * max(1, abs(r)) else 10 ** 9


class World:
    """meshes with the Jacobians at one point and the normal of the unfitted boundary there"""

    def __init__(self, rng, cls):
        self.rng, self.meshes, self.geo = rng, [], []
        for _ in range(3):
            tdim, gdim = rng.choice([(2, 2), (3, 3), (2, 3), (2, 2), (3, 3)])
            while True:
                F = [[rng.randint(-3, 3) for _ in range(tdim)] for _ in range(gdim)]
                if tdim < gdim:
                    F = [[max(-2, min(2, x)) for x in r] for r in F]
                A = np.array(F)
                if abs(np.linalg.det(A.T @ A)) > .5:
                    break
            N = [0] * tdim
            while not any(N):
                N = [rng.randint(-3, 3) for _ in range(tdim)]
            dom = um.MiniDomain(tdim, gdim)
            self.meshes.append(cls(dom, tdim, gdim))
            self.geo.append({"F": F, "N": N, "tdim": tdim})
        self.env = {}
        for m, g in zip(self.meshes, self.geo):
            self.env[("J", id(m.dom))] = g["F"]
            self.env[("C", id(m.dom))] = g["N"]
        self.by = {id(m.dom): k + 1 for k, m in enumerate(self.meshes)}

    def den(self, k):
        A = np.array(self.geo[k]["F"])
        return np.linalg.det(A) if A.shape[0] == A.shape[1] else np.linalg.det(A.T @ A)

    def integral(self, itg, data, base):
        md = itg.metadata()
        k = self.by[id(itg.ufl_domain())]
        fac = float(itg.integrand().eval(self.env)) / base
        return {"t": itg.integral_type(), "dom": k, "id": -1 if itg.subdomain_id() == "everywhere" else int(itg.subdomain_id()),
                "deg": int(md.get("quadrature_degree", -1)), "other": int(md.get("other", -1)),
                "data": next(n for n, d in enumerate(data) if d is itg.subdomain_data()),
                "rule": str(md.get("quadrature_rule")), "flag": md.get("custom_unfitted_boundary") is True,
                "points": [len(p) for p in md.get("quadrature_points", [])], "weights": len(md.get("quadrature_weights", [])),
                "fac2": near(fac ** 2 * self.den(k - 1) ** 2), "up": fac > 0}


def run(c):
    import dolfinx.mesh
    from qugar.dolfinx.boundary import ds_bdry_unf, mapped_normal
    c.tlc("MeasuresLaws", workers=8)
    ops = c.pick(2, 3)
    cases = c.generate("MeasureScripts", cfg_text=f"SPECIFICATION Spec\nCONSTANT MaxOps = {ops}\nINVARIANT Emit\nINVARIANT Sane\nCHECK_DEADLOCK FALSE\n", workers=1)
    c.extra["enumerated"] = len(cases)
    rng = random.Random(c.seed * 17 + 5)

    class LabMesh(dolfinx.mesh.Mesh):
        def __init__(self, dom, tdim, gdim):
            self.dom, self._t = dom, (tdim, gdim)
            dt = rng.choice([np.float32, np.float64])
            self._geo, self._top = NS(x=np.zeros((2, 3), dtype=dt), dim=gdim), NS(dim=tdim)

        geometry = property(lambda s: s._geo)
        topology = property(lambda s: s._top)

        def ufl_domain(self):
            return self.dom

        def ufl_id(self):
            return id(self)
    obs, reps = [], []
    worlds = [World(rng, LabMesh) for _ in range(c.pick(60, 300))]
    data = [None, object(), [(1, np.zeros(1, dtype=np.int32))]]
    made = []

    def sid(ids):
        return "everywhere" if ids == [-1] else ids[0] if len(ids) == 1 else tuple(ids)

    def md(op):
        m = {}
        if op["deg"] >= 0:
            m["quadrature_degree"] = op["deg"]
        if op["other"] >= 0:
            m["other"] = op["other"]
        if rng.random() < .3:
            m["quadrature_rule"] = "default"            # overridden: the rule is custom
        return m

    def start(w, m):
        d = md(m)
        kw = {"subdomain_id": sid(m["ids"]), "subdomain_data": data[m["data"]]}
        if m["deg"] >= 0 and rng.random() < .5:
            if "quadrature_degree" in d:
                d["quadrature_degree"] = 99             # the argument wins
            kw["degree"] = m["deg"]
        given = None if not d and rng.random() < .5 else d
        keep = None if given is None else dict(given)
        r = ds_bdry_unf(w.meshes[m["dom"] - 1], metadata=given, **{k: v for k, v in kw.items() if v is not None and v != "everywhere"})
        return r, lambda: given == keep

    def apply(w, ms, op, watch):
        k = op["k"]
        if k == "id":
            return ms(sid(op["ids"])) if rng.random() < .7 else ms.reconstruct(subdomain_id=sid(op["ids"]))
        if k == "plain":
            return ms()
        if k == "deg":
            return ms(degree=op["deg"])
        if k == "meta":
            d = md(op)
            watch.append((d, dict(d)))
            if op["deg"] >= 0 and rng.random() < .4:
                del d["quadrature_degree"]
                watch[-1] = (d, dict(d))
                return ms(metadata=d, degree=op["deg"])
            return ms(metadata=d) if rng.random() < .6 else ms.reconstruct(metadata=d)
        if k == "data":
            return ms(subdomain_data=data[op["data"]]) if rng.random() < .6 else ms.reconstruct(subdomain_data=data[op["data"]])
        if k == "dom":
            d = w.meshes[op["dom"] - 1]
            return ms(domain=d) if rng.random() < .6 else ms.reconstruct(domain=d)
        return ms(w.meshes[op["dom"] - 1])

    def play(case):
        w = rng.choice(worlds)
        m0, same = start(w, case["m"])
        base = rng.choice([1, 2, -3, 0.5])

        def form(ms):
            z = rng.random()
            if z < .3:
                return base * ms
            if z < .5:      # several measures at once, and sums of forms
                return um.as_ufl(base) * (ms + um.Measure("exterior_facet", domain=w.meshes[0].dom))
            return um.as_ufl(base) * ms

        def integrals(ms):
            before = form(ms)
            return [w.integral(i, data, base) for i in before.integrals() if i.integral_type() == "cell"]
        first0 = integrals(m0) if rng.random() < .5 else None
        ms, watch = m0, []
        for op in case["ops"]:
            ms = apply(w, ms, op, watch)
        last = integrals(ms)
        first = integrals(m0)
        made.append((case, w, ms))
        return {"op": "script", "m": case["m"], "ops": case["ops"], "first": first if first0 is None else first0 if first0 == first else [], "last": last, "geo": w.geo,
                "untouched": same() and all(d == k for d, k in watch) and isinstance(ms, ds_bdry_unf)}
    for case in cases if len(cases) < 20000 else rng.sample(cases, 20000):
        r, err = call(play, case)
        if err is not None:
            c.violation("a measure over the unfitted boundary fails", {**case, "error": err})
            continue
        obs.append(r)
        reps.append(r)
    # normals in space
    for _ in range(c.pick(400, 4000)):
        w = World(rng, LabMesh)
        for k, (m, g) in enumerate(zip(w.meshes, w.geo)):
            def both():
                u, n = mapped_normal(m, normalize=False), mapped_normal(m, True) if rng.random() < .5 else mapped_normal(m)
                if u.ufl_shape != n.ufl_shape:
                    raise AssertionError("shapes differ")
                u, n = u.eval(w.env), n.eval(w.env)
                return {"op": "normal", "F": g["F"], "N": g["N"], "len": len(u), "plain": [near(x * w.den(k)) for x in u],
                        "unit": [near(x * w.den(k) * np.sqrt(np.sum(u * u))) for x in n]}
            r, err = call(both)
            if err is not None:
                c.violation("the normal cannot be mapped", {"geometry": g, "error": err})
                continue
            obs.append(r)
            reps.append(r)
    # which measures are equal
    def run_state(case):
        s = dict(case["m"])
        for op in case["ops"]:
            k = op["k"]
            if k == "id":
                s["ids"] = op["ids"]
            if k in ("plain", "over"):
                s["ids"] = [-1]
            if k in ("dom", "over"):
                s["dom"] = op["dom"]
            if k == "deg":
                s["deg"], s["other"] = op["deg"], -1
            if k == "meta":
                s["deg"], s["other"] = op["deg"], op["other"]
            if k == "data":
                s["data"] = op["data"]
        return s
    groups = {}
    for x in made:
        groups.setdefault(id(x[1]), []).append(x)
    for _ in range(c.pick(1500, 8000)):
        g = rng.choice(list(groups.values()))
        (ca, _, a), (cb, _, b) = rng.choice(g), rng.choice(g)
        if rng.random() < .2:
            b = um.Measure("cell", domain=a.ufl_domain(), subdomain_id=a.subdomain_id(), metadata=dict(a.metadata()), subdomain_data=a.subdomain_data())
            rb = {"plain": True}
        else:
            rb = run_state(cb)
        r, err = call(lambda: {"op": "pair", "a": run_state(ca), "b": rb, "eq": a == b, "hash": hash(a) == hash(b), "self": a == a and not (a != a) and (a == b) == (b == a)})
        if err is not None:
            c.violation("measures cannot be compared", {"a": ca, "b": cb, "error": err})
            continue
        obs.append(r)
        reps.append(r)
    c.sample(reps[0])
    c.extra["measures"] = len(made)
    for b in c.judge("MeasureJudge", obs, cfg="Judge.cfg", chunk=2500):
        what = {"script": "the integrals of a measure over the unfitted boundary are wrong", "normal": "a mapped normal is wrong", "pair": "measures compare wrongly"}
        c.violation(what[obs[b]["op"]], reps[b])


main("C18", run)
