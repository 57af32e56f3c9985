import random
import numpy as np
from vc import main
import pycheck
from pycheck import jlist


def run(c):
    import meshes
    from qugar.mesh import TensorProductMesh
    c.tlc("MeshIdsLaws", workers=8)
    rng = random.Random(c.seed * 13)
    obs = []
    for w in meshes.worlds(rng, c.pick(160, 1200)):
        dim = rng.choice([1, 2, 2, 3])
        n = meshes.random_shape(rng, dim)
        deg = rng.choice([1, 1, 2, 3]) if dim < 3 else rng.choice([1, 1, 2])
        gdim = rng.randint(dim, 3)
        nc = int(np.prod(n))
        npts = [k * deg + 1 for k in n]
        nn = int(np.prod(npts))
        dt = rng.choice([np.float64, np.float64, np.float32])
        act = None
        z = rng.random()
        if z < .5:
            act = np.array(sorted(rng.sample(range(nc), rng.randint(1, nc))), dtype=np.int64)
        elif z < .6:
            act = np.array(rng.sample(range(nc), nc), dtype=np.int64)     # all of them, in any order
        elif z < .7:
            act = np.array(rng.sample(range(nc), rng.randint(1, nc)), dtype=np.int64)
        merge = rng.random() < .4
        tol = None
        if merge:
            k = rng.randint(1, nn)
            cls = [rng.randrange(k) for _ in range(nn)]
            pos = np.array([[rng.uniform(-3, 8) for _ in range(gdim)] for _ in range(k)])
            pos[:, 0] = np.array(rng.sample(range(10 * k), k)) * 1.5     # well apart
            x = pos[cls]
            if rng.random() < .5:
                span = float(x.max() - x.min())
                x = x + np.array([[rng.uniform(-1, 1) * 1e-7 * span for _ in range(gdim)] for _ in range(nn)])
            if rng.random() < .4:
                tol = 0.3
        else:
            cls = list(range(nn))
            x = np.array([[rng.uniform(-1, 1) for _ in range(gdim)] for _ in range(nn)])
        x = np.asarray(x, dtype=dt)
        mergemap = None
        for rank in range(w.size):
            what = {"cells": n, "degree": deg, "gdim": gdim, "active": jlist(act), "size": w.size, "rank": rank, "owner": w.owner,
                    "seed": w.seed, "ghosts": w.ghosts, "classes": cls if merge else None, "tol": tol}
            coords = x if rank == 0 else np.empty((0, gdim), dtype=dt)
            m = pycheck.ask(c, "creating the mesh failed", what, TensorProductMesh, w.comm(rank), coords, n, degree=deg,
                            active_cells=None if act is None else act.copy(), merge_nodes=merge, merge_tol=tol)
            if m is None:
                break
            t, g = m._cpp_object.topology, m._cpp_object.geometry
            if mergemap is None:
                mergemap = jlist(np.asarray(m.merged_nodes_map)) if merge else list(range(nn))
                if merge:
                    obs.append({"op": "merge", "cls": cls, "res": mergemap, "view": {}})
                    if len(mergemap) != nn or not all(0 <= y < nn for y in mergemap):
                        break          # reported below; the rest depends on it
            full = act is None or len(act) == nc
            tot = t._cell_map.size_local + t._cell_map.num_ghosts
            v = {"rows": jlist(t.original_cell_index), "active": list(range(nc)) if full else jlist(act), "merge": mergemap,
                 "inp": jlist(g.input_global_indices), "nown": t._cell_map.size_local, "ncells": nc, "ismerged": merge,
                 "glob": jlist(t._cell_map.local_to_global(np.arange(tot))), "c2f": [jlist(r) for r in t._avail[(dim, dim - 1)]._rows]}
            loc = list(range(tot))
            rng.shuffle(loc)
            loc = loc[:rng.randint(0, tot)] + loc[:rng.randint(0, 2)]

            def put(op, fn, ask=None, **kw):
                r = pycheck.ask(c, f"{op} failed", dict(what, ask=ask), fn)
                if r is not None:
                    obs.append({"op": op, "view": v, "ask": ask, "res": jlist(r), "dt": str(getattr(r, "dtype", "")), **kw})
                return r

            a32 = np.array(loc, dtype=np.int32)
            put("allcells", m.get_all_original_cell_ids)
            put("origcells", lambda: m.get_original_cell_ids(a32), loc)
            anyc = [rng.randrange(nc) for _ in range(rng.randint(0, 2 * nc))]
            put("localcells", lambda: m.get_DOLFINx_local_cell_ids(np.array(anyc, dtype=np.int64)), anyc)
            here = [v["active"][r] for r in v["rows"]]
            rng.shuffle(here)
            put("globalcells", lambda: m.get_DOLFINx_global_cell_ids(np.array(here, dtype=np.int64)), here)
            put("loc2glob", lambda: m.get_DOLFINx_local_to_global_cell_ids(a32), loc)
            anyn = [rng.randrange(nn) for _ in range(rng.randint(0, 2 * nn))]
            put("localnodes", lambda: m.get_DOLFINx_local_node_ids(np.array(anyn, dtype=np.int64)), anyn)
            ln = list(range(len(v["inp"])))
            rng.shuffle(ln)
            put("orignodes", lambda: m.get_original_node_ids(np.array(ln, dtype=np.int32)), ln)
            for cell in loc[:2]:
                put("cellfacets", lambda: m.get_cell_facets(np.int32(cell)), cell)
            put("merged", lambda: bool(m.has_merged_nodes))
            put("inactive", lambda: bool(m.has_inactive_cells))

            def actives():
                try:
                    return jlist(m.original_active_cells)
                except ValueError:
                    return "none"
            put("actives", actives)
            put("counts", lambda: [int(m.num_local_cells), int(m.num_global_cells)])
    for i in c.judge("MeshIdsJudge", obs, cfg="Judge.cfg"):
        o = obs[i]
        c.violation(f"{o['op']}: asked {str(o.get('ask'))[:80]}, got {str(o['res'])[:150]}", o)
    c.sample(obs[0])
    c.assumptions.append("DOLFINx is modelled by permutations of cells, nodes and facets, owners per cell and optional ghosts; "
                         "coincident nodes form clusters far apart compared to the tolerance")


main("C13", run)
