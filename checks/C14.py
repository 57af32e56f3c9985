import random
import numpy as np
from vc import main
import pycheck
from pycheck import jlist


def ints(x, scale, dt):
    """scale*x as integers, or the float itself when it is not one."""
    eps = 1e-9 if dt == np.float64 else 1e-3
    r = np.rint(np.asarray(x, dtype=np.float64) * scale)
    ok = np.abs(np.asarray(x, dtype=np.float64) * scale - r) <= eps
    return [[int(b) if k else 999983 for a, b, k in zip(p, q, o)] for p, q, o in zip(np.atleast_2d(x), np.atleast_2d(r), np.atleast_2d(ok))]


def run(c):
    import meshes
    import fenics_stub
    from qugar.mesh import CartesianMesh, TensorProductMesh, create_Cartesian_mesh
    c.tlc("TPMeshLaws", workers=8)
    rng = random.Random(c.seed * 11)
    obs = []
    for w in meshes.worlds(rng, c.pick(150, 1200)):
        kind = rng.choice(["create", "cart", "cart", "tp"])
        dim = rng.choice([1, 2, 2, 3]) if kind == "tp" else rng.choice([2, 2, 3])
        n = meshes.random_shape(rng, dim)
        p = rng.choice([1, 1, 2, 3, 4]) if dim < 3 else rng.choice([1, 1, 2, 3])
        dt = rng.choice([np.float64, np.float32])
        nc = int(np.prod(n))
        act = None
        if kind != "create" and rng.random() < .5:
            act = sorted(rng.sample(range(nc), rng.randint(1, nc)))
        lo = [rng.randint(-8, 8) for _ in n]
        h = [rng.randint(1, 4) for _ in n]
        if kind == "create":
            z = rng.random()
            both = z < .6
            if not both:            # defaults of the bounding box
                if z < .8:
                    lo, h = [0] * dim, h
                    args = {"xmax": np.array([k * s for k, s in zip(n, h)], dtype=dt)}
                else:
                    lo = [1 - k * s for k, s in zip(n, h)]
                    args = {"xmin": np.array(lo, dtype=dt)}
            else:
                args = {"xmin": np.array(lo, dtype=dt), "xmax": np.array([a + k * s for a, k, s in zip(lo, n, h)], dtype=dt)}
            breaks = [[a + j * s for j in range(k + 1)] for a, k, s in zip(lo, n, h)]
        else:
            breaks = []
            for k in n:
                b = [rng.randint(-9, 9)]
                for _ in range(k):
                    b.append(b[-1] + rng.randint(1, 5))
                breaks.append(b)
        gdim = dim
        for rank in range(w.size):
            what = {"kind": kind, "cells": n, "degree": p, "dtype": str(np.dtype(dt)), "active": act, "breaks": breaks, "size": w.size,
                    "rank": rank, "owner": w.owner, "seed": w.seed, "ghosts": w.ghosts}
            comm = w.comm(rank)
            sent = {}
            orig_build = fenics_stub.build_mesh

            def spy(cm, conn, cmap, x, partitioner=None):
                sent.update(conn=np.array(conn), x=np.array(x), part=partitioner)
                return orig_build(cm, conn, cmap, x, partitioner)
            import sys
            sys.modules["dolfinx.cpp.mesh"].create_mesh = spy
            gm = rng.choice([fenics_stub.GhostMode.none, fenics_stub.GhostMode.shared_facet])
            a = None if act is None else np.array(act, dtype=np.int64)
            if kind == "create":
                m = pycheck.ask(c, "create_Cartesian_mesh failed", what, create_Cartesian_mesh, comm, n, degree=p, ghost_mode=gm, **args)
            elif kind == "cart":
                grid = fenics_stub.create_cart_grid([np.array(b, dtype=np.float64) for b in breaks])
                m = pycheck.ask(c, "CartesianMesh failed", what, CartesianMesh, comm, grid, p, a, gm, dt)
            else:
                gdim = rng.randint(dim, 3) if rank == 0 else gdim
                if rank == 0:
                    pts = int(np.prod([k * p + 1 for k in n]))
                    coords = np.array([[rng.randint(-50, 50) for _ in range(gdim)] for _ in range(pts)], dtype=dt)
                m = pycheck.ask(c, "TensorProductMesh failed", what, TensorProductMesh, comm,
                                coords if rank == 0 else np.empty((0, gdim), dtype=dt), n, p, a, gm)
            sys.modules["dolfinx.cpp.mesh"].create_mesh = orig_build
            if m is None:
                break
            base = {"n": n, "p": p}
            if rank == 0:
                obs.append(dict(base, op="conn", active=act if act is not None else list(range(nc)), res=jlist(sent["conn"])))
                if kind != "tp":
                    obs.append(dict(base, op="coords", breaks=breaks, res=ints(sent["x"], p, dt)))
                elif not np.array_equal(sent["x"], coords) or sent["x"].dtype != coords.dtype:
                    c.violation("node coordinates were changed", what)
                if kind == "create":
                    obs.append(dict(base, op="uniform", lo=lo, h=h, res=[ints(b, 1, dt)[0] for b in m.cell_breaks]))
            else:
                obs.append(dict(base, op="empty", gdim=gdim, res=[*sent["conn"].shape, *sent["x"].shape]))
            if w.size > 1 and sent["part"] != ("partitioner", gm):
                c.violation("ghost mode is not handed to the partitioner", dict(what, got=str(sent["part"]), want=str(gm)))
            t = m._cpp_object.topology
            rows = jlist(t.original_cell_index)
            orig = rows if act is None else [act[r] for r in rows]
            v = {"orig": orig, "c2f": [jlist(r) for r in t._avail[(dim, dim - 1)]._rows]}

            def put(op, fn, **kw):
                r = pycheck.ask(c, f"{op} failed", dict(what, **kw), fn)
                if r is not None:
                    obs.append(dict(base, op=op, view=v, res=jlist(r), **kw))

            put("facts", lambda: [jlist(np.asarray(m.num_pts_dir)), jlist(np.asarray(m.num_cells_dir)), int(m.num_cells_tp), m.degree,
                                  m.tdim, m.gdim, str(m.dtype)], gdim=gdim, dt=str(np.dtype(dt)))
            put("tindex", lambda: [jlist(m.get_cell_tensor_index(np.int32(k))) for k in range(len(orig))])
            if kind != "tp":
                put("bbox", lambda: [ints(m.get_cell_bbox(np.int32(k)), 1, dt) for k in range(len(orig))], breaks=breaks)
            fids = list(range(2 * dim))
            rng.shuffle(fids)
            for f in fids:
                put("facecells", lambda: m.get_face_DOLFINx_cells(f), face=f)
                put("facefacets", lambda: m.get_face_facets(f), face=f)

            def tags():
                tg = m.create_facet_bdry_tags()
                obs.append(dict(base, op="tags", view=v, res=jlist(tg.indices), values=jlist(tg.values), dim=tg.dim))
                return tg.mesh is m
            if pycheck.ask(c, "create_facet_bdry_tags failed", what, tags) is False:
                c.violation("tags are of another mesh", what)
    for i in c.judge("TPMeshJudge", obs, cfg="Judge.cfg"):
        o = obs[i]
        c.violation(f"{o['op']} on {o['n']} degree {o['p']}: {str(o['res'])[:150]}", o)
    c.sample({k: v for k, v in obs[0].items() if k != "view"})
    c.assumptions.append("DOLFINx is modelled; coordinates are compared as multiples of 1/degree")


main("C14", run)
