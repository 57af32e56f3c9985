import random
import numpy as np
from vc import main
import pycheck
from pycheck import jlist


def cells_part(c, rng, obs):
    import meshes
    import unfmesh
    for w in meshes.worlds(rng, c.pick(120, 1000)):
        n = meshes.random_shape(rng)
        sp = unfmesh.draw(rng, n)
        dom = sp["dom"]
        order = [rng.choice(["cut", "full", "empty", "tags"]) for _ in range(6)] + ["cut", "full", "empty"]
        tagsets = [{k: rng.randint(0, 4) for k in rng.sample(["cut", "full", "empty"], rng.randint(0, 3))} for _ in range(6)]
        for rank in range(w.size):
            what = {"cells": n, "size": w.size, "rank": rank, "owner": w.owner, "seed": w.seed, "ghosts": w.ghosts, "exclude": sp["exclude"],
                    "status": dom.cells}
            m, sent = unfmesh.make(c, rng, w, rank, sp, pycheck, what)
            if m is None:
                break
            base = {"view": unfmesh.view(m, sp), "cells": dom.cells, "recs": dom.recs}
            if rank == 0:
                ids = m.get_all_original_cell_ids() if w.size == 1 else None
                if ids is not None:
                    obs.append(dict(base, op="active", exclude=sp["exclude"], res=sorted(jlist(ids))))
            if m.mesh is not m or m.cpp_unf_domain_object is not dom or m._ufl_domain.unf_domain is not m:
                c.violation("the unfitted mesh does not denote itself", what)
            for k, op in enumerate(order):
                if op == "tags":
                    tags = tagsets[k]
                    r = pycheck.ask(c, "create_cell_meshtags failed", dict(what, tags=tags), m.create_cell_meshtags,
                                    **{f"{q}_tag": t for q, t in tags.items()})
                    if r is not None:
                        obs.append(dict(base, op="celltags", tags=tags, res=jlist(r.indices), values=jlist(r.values), dim=r.dim))
                        if r.mesh is not m:
                            c.violation("tags are of another mesh", what)
                else:
                    r = pycheck.ask(c, f"get_{op}_cells failed", what, getattr(m, f"get_{op}_cells"))
                    if r is not None:
                        obs.append(dict(base, op="cells", kind=op, res=jlist(r)))


def construction(c, rng, obs):
    """create_unfitted_impl_Cartesian_mesh: background grid, function and options."""
    import types
    import sys
    import meshes
    import fenics_stub
    import unfitted
    from qugar.mesh import create_unfitted_impl_Cartesian_mesh
    import qugar.cpp
    for w in meshes.worlds(rng, c.pick(60, 400)):
        if w.size > 1:
            continue
        dim = rng.choice([2, 3])
        scalar = rng.random() < .4
        n = [rng.randint(1, 3)] * dim if scalar else meshes.random_shape(rng, dim)
        dt = rng.choice([np.float32, np.float64])
        z = rng.random()
        lo, h = [rng.randint(-4, 4) for _ in n], [rng.randint(1, 3) for _ in n]
        args = {}
        if z < .2:
            lo, h, s = [0] * dim, [1] * dim, 1
            n = [1] * dim if not scalar else [1] * dim
            if rng.random() < .5:
                args["dtype"] = dt
            else:
                dt = np.float64
        elif z < .4:
            lo = [0] * dim
            args["xmax"] = np.array([k * q for k, q in zip(n, h)], dtype=dt)
        elif z < .6:
            lo = [1 - k * q for k, q in zip(n, h)]
            args["xmin"] = np.array(lo, dtype=dt)
        else:
            args = {"xmin": np.array(lo, dtype=dt), "xmax": np.array([a + k * q for a, k, q in zip(lo, n, h)], dtype=dt)}
        deg = rng.choice([1, 2])
        excl = rng.random() < .5
        gm = rng.choice([fenics_stub.GhostMode.none, fenics_stub.GhostMode.shared_facet])
        func = types.SimpleNamespace(dim=dim, cpp_object=object())
        seen = {}

        def create(impl_func, grid, *a):
            seen.update(func=impl_func, grid=grid)
            d = unfitted.random_domain(rng, grid)
            d.cells[0], d.recs[0] = "full", []
            seen["dom"] = d
            return d
        qugar.cpp.create_unfitted_impl_domain = create
        if rng.random() < .7 or not excl:
            args["exclude_empty_cells"] = excl
        else:
            excl = True
        what = {"n": n, "scalar": scalar, "args": {k: str(v) for k, v in args.items()}, "degree": deg, "exclude": excl}
        m = pycheck.ask(c, "create_unfitted_impl_Cartesian_mesh failed", what, create_unfitted_impl_Cartesian_mesh, w.comm(0), func,
                        n[0] if scalar else rng.choice([n, np.array(n, dtype=np.int32)]), degree=deg, ghost_mode=gm, **args)
        if m is None:
            continue
        g = seen["grid"]
        want = [[a + j * q for j in range(k + 1)] for a, k, q in zip(lo, n, h)]
        if seen["func"] is not func.cpp_object or [jlist(np.rint(b)) for b in g.cell_breaks] != want \
                or any(np.abs(b - np.rint(b)).max() > 1e-9 for b in g.cell_breaks):
            c.violation("the domain is not built from the function on the asked grid", dict(what, got=[jlist(b) for b in g.cell_breaks], want=want))
        if m.degree != deg or m.dtype != dt or m.cpp_unf_domain_object is not seen["dom"]:
            c.violation("degree, type or domain of the mesh", dict(what, got=[m.degree, str(m.dtype)], dt=str(dt)))
        ids = sorted(jlist(m.get_all_original_cell_ids()))
        v = meshes.view(m)
        obs.append({"op": "active", "view": v, "cells": seen["dom"].cells, "recs": seen["dom"].recs, "exclude": excl, "res": ids})
        if [jlist(np.rint(np.asarray(b, dtype=np.float64))) for b in m.cell_breaks] != want:
            c.violation("cell breaks of the mesh", dict(what, want=want))


def run(c):
    import meshes  # noqa: F401  (installs the stand-ins)
    c.tlc("UnfittedStatusLaws", workers=8)
    rng = random.Random(c.seed * 13)
    obs = []
    cells_part(c, rng, obs)
    construction(c, rng, obs)
    for i in c.judge("UnfittedJudge", obs, cfg="Judge.cfg"):
        o = obs[i]
        c.violation(f"{o['op']} {o.get('kind', '')}: {str(o['res'])[:150]}", o)
    c.sample({k: v for k, v in obs[0].items() if k != "view"})
    c.assumptions.append("the C++ unfitted domain (C22) and DOLFINx are modelled")


main("C15", run)
