import random
import numpy as np
from vc import main
import pycheck
from pycheck import jlist


def run(c):
    import meshes
    import unfmesh
    import unfitted
    import qugar.cpp
    from qugar.mesh.mesh_facets import MeshFacets
    rng = random.Random(c.seed * 19)
    obs = []
    for w in meshes.worlds(rng, c.pick(80, 600)):
        n = meshes.random_shape(rng)
        sp = unfmesh.draw(rng, n)
        dom = sp["dom"]
        for rank in range(w.size):
            what = {"cells": n, "size": w.size, "rank": rank, "owner": w.owner, "seed": w.seed, "ghosts": w.ghosts, "exclude": sp["exclude"]}
            m, _ = unfmesh.make(c, rng, w, rank, sp, pycheck, what)
            if m is None:
                break
            base = {"view": unfmesh.view(m, sp), "cells": dom.cells, "recs": dom.recs}
            quads = unfitted.Quads()
            quads.install(qugar.cpp)
            nl = len(base["view"]["orig"])
            for _ in range(6):
                deg = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 20])
                kind = rng.choice(["cells", "bdry", "ext", "int"])
                if kind in ("cells", "bdry"):
                    ask = rng.sample(range(nl), rng.randint(0, nl))
                    cells = np.array(ask, dtype=np.int32)
                    fn = m.create_quad_custom_cells if kind == "cells" else m.create_quad_unf_boundaries
                    q = pycheck.ask(c, f"{fn.__name__} failed", dict(what, degree=deg, ask=ask), fn, deg, cells)
                else:
                    every = [[a, b] for a in range(nl) for b in range(2 * len(n))]
                    ask = rng.sample(every, rng.randint(0, min(len(every), 20)))
                    f = MeshFacets(np.array([p[0] for p in ask], dtype=np.int32), np.array([p[1] for p in ask], dtype=np.int32))
                    q = pycheck.ask(c, "create_quad_custom_facets failed", dict(what, degree=deg, ask=ask), m.create_quad_custom_facets,
                                    deg, f, ext_integral=(kind == "ext"))
                if q is None:
                    continue
                w2 = dict(what, degree=deg, kind=kind, ask=ask)
                if len(quads.calls) != 1:
                    c.violation(f"{len(quads.calls)} quadratures were computed for one query", w2)
                    quads.calls.clear()
                    continue
                (k2, d2, ents, npts, flags, ans) = quads.calls.pop()
                if k2 != kind or d2 is not dom:
                    c.violation(f"a quadrature of kind {k2} was computed", w2)
                if flags is not None and flags != [False, False]:
                    c.violation(f"unfitted boundary quadrature with facet boundaries/external exclusion {flags}", w2)
                own = jlist(q.cells) if kind in ("cells", "bdry") else [list(p) for p in zip(jlist(q.facets.cell_ids), jlist(q.facets.local_facet_ids))]
                obs.append(dict(base, op="quadcells" if kind in ("cells", "bdry") else "quadfacets", ask=ask, res=ents, owners=own, n=npts, degree=deg))
                if not (np.array_equal(q.n_pts_per_entity, ans.n_pts_per_entity) and np.array_equal(q.points, ans.points)
                        and np.array_equal(q.weights, ans.weights) and (kind != "bdry" or np.array_equal(q.normals, ans.normals))):
                    c.violation("the quadrature is not the computed one", w2)
    for i in c.judge("UnfittedJudge", obs, cfg="Judge.cfg"):
        o = obs[i]
        c.violation(f"{o['op']}: asked {o['ask']} computed {o['res']} n={o['n']} degree={o['degree']}", o)
    c.sample({k: v for k, v in obs[0].items() if k != "view"})
    c.assumptions.append("the C++ quadrature generators (C24) and DOLFINx are modelled")


main("C26", run)
