"""Answers cases about qugar's Python interface, one JSON line each; argv: folder of the compiled qugar.cpp."""
import gc
import importlib.machinery
import importlib.util
import json
import os
import sys
from pathlib import Path
from types import SimpleNamespace as NS

sys.path.insert(0, str(Path(__file__).resolve().parent.parent.parent / "stubs"))
import fenics_stub  # noqa: E402

find = fenics_stub._Finder.find_spec
SO = str(Path(sys.argv[1]) / "cpp.so")


def real(self, name, path=None, target=None):
    if name == "qugar.cpp":
        return importlib.util.spec_from_file_location(name, SO, loader=importlib.machinery.ExtensionFileLoader(name, SO))
    return find(self, name, path, target)


fenics_stub._Finder.find_spec = real
fill_fem = fenics_stub._FILL["dolfinx.fem"]


def fem(m):
    fill_fem(m)
    m.create_interpolation_data = lambda V_to, V_from, cells, padding=1e-14: (V_to, V_from, cells, padding)


fenics_stub._FILL["dolfinx.fem"] = fem
PLOT = os.environ.get("WITH_PLOT") == "1"
if PLOT:
    import pyvista_mini  # noqa: E402
    pyvista_mini.install()
fenics_stub.install()
import basix.ufl  # noqa: E402
import dolfinx.cpp.graph  # noqa: E402
import dolfinx.mesh as dm  # noqa: E402
import numpy as np  # noqa: E402
import ufl  # noqa: E402
import qugar.cpp as cpp  # noqa: E402
import qugar.impl as impl  # noqa: E402
import qugar.mesh  # noqa: E402
import qugar.reparam  # noqa: E402
from qugar.mesh.mesh_facets import MeshFacets  # noqa: E402

assert cpp.__file__ == SO
WRONG = -999999937
KINDS = ("interval", "quadrilateral", "hexahedron")


def unit(v, q=1.0):
    x = float(v) * q
    r = round(x) if abs(x) < 2e9 else WRONG
    return r if abs(x - r) <= 1e-2 else WRONG


def units(a, q=1.0):
    a = np.asarray(a)
    return [units(x, q) for x in a] if a.ndim else unit(a, q)


def layout(a, lay):
    """an array of the same values"""
    if lay == "s":  # every second entry of another one
        b = np.full((2 * a.shape[0] + 1, *a.shape[1:]), 77, dtype=a.dtype)
        b[1::2] = a
        return b[1::2]
    if lay == "r":
        return np.ascontiguousarray(a[::-1])[::-1]
    if lay == "f":
        return np.asfortranarray(a)
    if lay == "w":  # columns of a wider one
        b = np.full((*a.shape[:-1], a.shape[-1] + 2), 55, dtype=a.dtype)
        b[..., 1:-1] = a
        return b[..., 1:-1]
    if lay == "k":  # one column of a table
        b = np.full((*a.shape, 2), 33, dtype=a.dtype)
        b[..., 0] = a
        return b[..., 0]
    return a


def make(v):
    """a value from its description"""
    if isinstance(v, dict):
        if "a" in v:
            a = layout(np.array(v["a"], dtype=v.get("dt", "f8")).reshape(v.get("sh", -1)), v.get("lay"))
            if v.get("ro"):
                a.flags.writeable = False
            return a
        if "f4" in v:
            return np.float32(v["f4"])
        if "f8" in v:
            return np.float64(v["f8"])
        if "get" in v:
            return getattr(make(v["of"]), v["get"])
        where, name = v["call"].split(".")
        f = getattr({"impl": impl, "cpp": cpp}[where], name)
        return f(*[make(x) for x in v.get("args", [])], **{k: make(x) for k, x in v.get("kw", {}).items()})
    if isinstance(v, list):
        return [make(x) for x in v]
    return v


def fun(o):
    f = make(o["f"])
    x = np.array(o["num"], dtype=np.float64).reshape(-1, f.dim) / o["over"]
    x = layout(x.astype(o["dt"]), o["lay"])
    v, g = f.eval(x), f.grad(x)
    ok = v.dtype == x.dtype and g.dtype == x.dtype and v.shape == (len(x),) and g.shape == x.shape
    dim = f.dim
    del f, x
    gc.collect()
    if o.get("wave"):  # derivatives per turn
        near = lambda a: np.rint(a).astype(int).tolist()
        return {"vals": near(v * o["q"]), "grads": near(g * (o["q"] / (2 * np.pi))), "dim": dim, "ok": bool(ok)}
    return {"vals": units(v, o["q"]), "grads": units(g, o["q"]), "dim": dim, "ok": bool(ok)}


def get(o):
    f = make(o["f"]).cpp_object
    r = {"class": type(f).__name__, "isbzr": "Bzr" in type(f).__name__}
    arrays = {}
    for k in ("radius", "inner_radius", "outer_radius", "major_radius", "minor_radius", "value"):
        if hasattr(f, k):
            r[k] = unit(getattr(f, k), o["S"])
    for k in ("center", "origin", "axis", "normal", "semi_axes"):
        if hasattr(f, k):
            arrays[k] = getattr(f, k)
    if hasattr(f, "ref_system"):
        r["ref"] = type(f.ref_system).__name__
    del f
    gc.collect()
    return {**r, **{k: units(a, o["S"]) for k, a in arrays.items()}}


def err(o):
    try:
        make(o["f"]) if "pts" not in o else getattr(make(o["f"]), o["what"])(make(o["pts"]))
    except Exception as e:  # noqa: BLE001
        return {"raised": type(e).__name__}
    return {"raised": ""}


def bbox(o):
    b = make(o["f"])
    a, lo, hi, mid = b.as_array(), b.min_corner, b.max_corner, b.mid_point
    r = {"volume": unit(b.volume, o["q"] ** len(lo)), "length": [unit(b.length(k), o["q"]) for k in range(len(lo))], "class": type(b).__name__}
    del b
    gc.collect()
    junk = [np.full(k, 9.0) for k in range(2, 40)]
    r.update(array=units(a, o["q"]), lo=units(lo, o["q"]), hi=units(hi, o["q"]), mid=units(mid, 2 * o["q"]), junk=len(junk))
    return r


def grid(o):
    g = make(o["f"])
    br, d = g.cell_breaks, g.domain
    n = int(np.prod(g.num_cells_dir))
    r = {"dim": g.dim, "n": units(g.num_cells_dir), "class": type(g).__name__,
         "cells": [units(g.get_cell_domain(k).as_array(), o["q"]) for k in range(n)],
         "bdry": [g.get_boundary_cells(f) for f in range(2 * g.dim)]}
    del g
    gc.collect()
    r.update(breaks=[units(b, o["q"]) for b in br], domain=units(d.as_array(), o["q"]), bdry=[b.tolist() for b in r["bdry"]])
    return r


def gauss(o):
    n = o["n"]
    q = cpp.create_Gauss_quad_01(n)
    x, w = q.points, q.weights
    del q
    gc.collect()
    one = [cpp.create_Gauss_quad_01([k]) for k in n]
    coarse = lambda v: [round(float(t) * 1000) for t in v]
    return {"pts": [coarse(p) for p in x], "w": coarse(w), "x1": [coarse(p.points[:, 0]) for p in one], "w1": [coarse(p.weights) for p in one]}


def moments(pts, w, dirs):
    m = []
    for e in range(2 ** len(dirs)):
        v = np.array(w, dtype=np.float64)
        for k, d in enumerate(dirs):
            if e >> k & 1:
                v = v * pts[:, d]
        m.append(unit(v.sum() if v.size else 0.0, 8.0 ** len(dirs)))
    return m


def proper(pts, w):
    return bool((w > 0).all() and (pts > -1e-12).all() and (pts < 1 + 1e-12).all())


def rules(q, d):
    """[(count, proper, moments)] of the entities of a quadrature; the arrays have to outlive it"""
    n, x, w = q.n_pts_per_entity, q.points, q.weights
    del q
    gc.collect()
    if int(n.sum()) != len(x) or len(x) != len(w) or x.ndim != 2 or x.shape[1] != d:
        return []
    r, at = [], 0
    for k in n.tolist():
        p, v = x[at:at + k], w[at:at + k]
        r.append({"n": k, "ok": proper(p, v), "m": moments(p, v, range(d))})
        at += k
    return r


def surfaces(q):
    n, x, w, u = q.n_pts_per_entity, q.points, q.weights, q.normals
    del q
    gc.collect()
    if int(n.sum()) != len(x) or len(x) != len(w) or x.shape != u.shape:
        return []
    r, at, dim = [], 0, x.shape[1]
    for k in n.tolist():
        p, v, m = x[at:at + k], w[at:at + k], u[at:at + k]
        pieces, used = [], 0
        for d in range(dim):
            e = np.zeros(dim)
            for s in (-1, 1):
                e[d] = s
                for half in (0, 1, 2):
                    sel = (np.abs(m - e).sum(axis=1) < 1e-9) & (np.abs(p[:, d] - half / 2) < 1e-9)
                    if sel.any():
                        used += int(sel.sum())
                        pieces.append({"d": d, "s": s, "at": half, "m": moments(p[sel], v[sel], [j for j in range(dim) if j != d])})
        r.append({"n": k, "ok": used == k and proper(p, v), "pieces": pieces})
        at += k
    return r


def pairs(t):
    c, f = t
    gc.collect()
    assert c.dtype == np.int64 and f.dtype == np.int32 and c.shape == f.shape
    return [list(p) for p in zip(c.tolist(), f.tolist())]


def domain(o):
    phi, g = make(o["phi"]), make(o["grid"])
    args = [phi.cpp_object, g]
    if "given" in o:
        args.append(make(o["given"]))
    dom = cpp.create_unfitted_impl_domain(*args)
    same = dom.impl_func is phi.cpp_object and dom.grid is g
    del phi, g, args
    gc.collect()
    cells = ("get_full_cells", "get_empty_cells", "get_cut_cells")
    facets = ("get_full_facets", "get_empty_facets", "get_cut_facets", "get_full_unf_bdry_facets", "get_unf_bdry_facets")
    tc, tfc, tff = make(o["tc"]), make(o["tfc"]), make(o["tff"])
    r = {"dim": dom.dim, "class": type(dom).__name__, "same": bool(same), "grid": units(dom.grid.num_cells_dir), "total": dom.num_total_cells,
         "any": dom.has_facets_with_unf_bdry}
    got = [getattr(dom, k)() for k in cells], [getattr(dom, k)(tc) if k != "get_cut_cells" else getattr(dom, k)(target_cell_ids=tc) for k in cells]
    r["allf"] = [pairs(getattr(dom, k)()) for k in facets]
    r["somef"] = [pairs(getattr(dom, k)(tfc, tff) if j % 2 else getattr(dom, k)(target_cell_ids=tfc, target_local_facet_ids=tff)) for j, k in enumerate(facets)]
    c, fc, ff, n = make(o["c"]), make(o["fc"]), make(o["ff"]), o["npts"]
    q = cpp.create_quadrature(dom, c, n)
    u = cpp.create_unfitted_bound_quadrature(dom, c, n_pts_dir=n, include_facet_unf_bdry=o["include"], exclude_ext_bdry=o["exclude"])
    i = cpp.create_facets_quadrature_interior_integral(dom, fc, ff, n)
    e = cpp.create_facets_quadrature_exterior_integral(dom, cells=fc, facets=ff, n_pts_dir=n)
    d = dom.dim
    del dom
    gc.collect()
    r["allc"], r["some"] = [x.tolist() for x in got[0]], [x.tolist() for x in got[1]]
    r["cells"] = q.cells.tolist() == c.tolist() == u.cells.tolist()
    r["facets"], r["facets2"] = pairs((i.cells, i.facets)), pairs((e.cells, e.facets))
    r["vol"], r["unf"], r["int"], r["ext"] = rules(q, d), surfaces(u), rules(i, d - 1), rules(e, d - 1)
    return r


def mesh(o):
    comm = fenics_stub.World(seed=o["seed"]).comm(0)
    m = qugar.mesh.create_unfitted_impl_Cartesian_mesh(comm, make(o["phi"]), make(o["n"]), *[make(v) for v in o["args"]], **{k: make(v) for k, v in o["kw"].items()})
    gc.collect()
    orig = lambda c: m.get_original_cell_ids(c).tolist()
    every = np.arange(m.num_local_cells, dtype=np.int32)
    r = {"active": orig(every), "full": orig(m.get_full_cells()), "empty": orig(m.get_empty_cells()), "cut": orig(m.get_cut_cells()), "sets": []}
    two = lambda f: [list(p) for p in zip(orig(f.cell_ids), f.local_facet_ids.tolist())]
    for ext in (True, False):
        for kind in ("cut", "full", "empty"):
            r["sets"].append({"ext": ext, "kind": kind, "f": two(getattr(m, f"get_{kind}_facets")(ext_integral=ext))})
    d, deg = m.tdim, o["qdeg"]
    q, u = m.create_quad_custom_cells(deg, every), m.create_quad_unf_boundaries(deg, every)
    r["c"], r["vol"], r["unf"] = orig(q.cells), rules(q, d), surfaces(u)
    r["uc"] = orig(u.cells)
    t2, loc = np.repeat(every, 2 * d), np.tile(np.arange(2 * d, dtype=np.int32), len(every))
    f = MeshFacets(t2, loc)
    a, b = m.create_quad_custom_facets(deg, f, True), m.create_quad_custom_facets(deg, f, False)
    r["f"], r["f2"], r["ext"], r["int"] = two(a.facets), two(b.facets), rules(a, d - 1), rules(b, d - 1)
    return r


def reparam(o):
    phi, g = make(o["phi"]), make(o["grid"])
    dom = cpp.create_unfitted_impl_domain(phi.cpp_object, g)
    algo = cpp.create_reparameterization_levelset if o["levelset"] else cpp.create_reparameterization
    m = algo(dom, make(o["cells"]), o["npts"], o["merge"]) if "cells" in o else algo(unf_domain=dom, n_pts_dir=o["npts"], merge_points=o["merge"])
    lows = [g.get_cell_domain(k).as_array() for k in range(int(np.prod(g.num_cells_dir)))]
    x, conn, wires = m.points, m.cells_conn, m.wirebasket_conn
    r = {"dim": m.dim, "range": m.range, "order": m.order, "cheb": bool(m.chebyshev), "class": type(m).__name__,
         "npts": len(x), "width": list(conn.shape[1:]) + list(wires.shape[1:])}
    # as a mesh of DOLFINx
    sent = []
    parts, elements = [], []
    comm_ = NS(rank=o["npts"] % 3, size=3)

    def create_mesh(comm, conn, e, x, partitioner=None):
        sent.append((comm, np.array(conn), np.array(x)))
        # DOLFINx calls partitioners with the vertices of the cells of the process
        td = KINDS.index(e[0])
        d = partitioner(comm, 3, [getattr(dm.CellType, e[0])], [np.arange(len(conn) * 2 ** (td + 1), dtype=np.int64)])
        parts.append([int(v) for v in np.asarray(d).reshape(-1)])
        elements.append([td + 1, *e[1:]])
        return "mesh"
    kept = dm.create_mesh, ufl.Mesh, basix.ufl.element
    dm.create_mesh = create_mesh
    dolfinx.cpp.graph.AdjacencyList_int32 = lambda a: a
    ufl.Mesh = lambda e: e

    def element(family, cell, degree, lagrange_variant=None, dpc_variant=None, discontinuous=False, shape=None, symmetry=None, dtype=None):
        return (cell if isinstance(cell, str) else cell.name, str(getattr(family, "name", family)), int(degree), list(shape or ()), bool(discontinuous),
                lagrange_variant == basix.LagrangeVariant.gll_warped, np.dtype(dtype).name)
    basix.ufl.element = element

    class Unf:
        cpp_unf_domain_object = dom

        class mesh:
            comm = comm_
    rm = qugar.reparam.create_reparam_mesh(Unf, degree=o["npts"] - 1, levelset=o["levelset"])
    k = rm.cpp_object
    made = [rm.create_mesh(wirebasket=False), rm.create_mesh(True)]
    dm.create_mesh, ufl.Mesh, basix.ufl.element = kept
    p, kc, kw = k.points, k.cells_conn, k.wirebasket_conn
    r["sent"] = [bool(made == ["mesh"] * 2 and s[0] is comm_ and np.array_equal(s[2], p)) for s in sent]
    r["rank"], r["parts"], r["elements"] = comm_.rank, parts, elements
    # data for interpolating on all the cells, also those of other processes
    own, ghosts = o["npts"], len(conn) % 4
    to, frm = NS(mesh=NS(topology=NS(dim=m.dim, index_map=lambda d: NS(size_local=own, num_ghosts=ghosts) if d == m.dim else None))), NS()
    tocells, data = qugar.reparam.create_interpolation_data(to, frm)
    r["interp"] = [int(v) for v in tocells]
    r["ninterp"] = own + ghosts
    r["interpok"] = bool(data[0] is to and data[1] is frm and data[2].tolist() == r["interp"] and data[3] == 1e-14
                         and qugar.reparam.create_interpolation_data(to, frm, .5)[1][3] == .5)
    r["conn"], r["wire"] = kc.tolist(), kw.tolist()
    r["mconn"], r["mwire"] = sent[0][1].tolist(), sent[1][1].tolist()
    del m, k, rm, dom, phi, sent
    gc.collect()
    used = set(conn.ravel().tolist()) | set(wires.ravel().tolist())
    r["used"] = sorted(used) == list(range(len(x)))
    r["apart"] = len({tuple(np.round(v, 9).tolist()) for v in x}) == len(x)
    # content of the cells of each box, axis-aligned
    rows = [[0, 0] for _ in lows] + [[0, 0]]
    for c in conn.tolist():
        v = x[c]
        lo, hi = v.min(axis=0), v.max(axis=0)
        k = next((j for j, b in enumerate(lows) if (lo > b[:, 0] - 1e-9).all() and (hi < b[:, 1] + 1e-9).all()), len(lows))
        size = (hi - lo) / (lows[k][:, 1] - lows[k][:, 0]) if k < len(lows) else hi - lo
        ext = [s for s in size if s > 1e-9]
        rows[k][0] += 1
        rows[k][1] += float(np.prod(ext)) if len(ext) == r["dim"] else 1e6
    r["rows"] = [[n, unit(v, 4.0 ** r["dim"])] for n, v in rows]
    return r


OPS = dict(fun=fun, get=get, err=err, bbox=bbox, grid=grid, gauss=gauss, domain=domain, mesh=mesh, reparam=reparam)
if PLOT:
    sys.path.insert(0, str(Path(__file__).resolve().parent))
    import plotops
    OPS.update(plotops.bind(globals()))
out = os.fdopen(os.dup(1), "w")
os.dup2(2, 1)
for line in sys.stdin:
    o = json.loads(line)
    try:
        r = OPS[o["op"]](o)
    except Exception as e:  # noqa: BLE001
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        r = {"crash": f"{type(e).__name__}: {e} ({Path(tb.filename).name}:{tb.lineno} {tb.line})"[:400]}
    out.write(json.dumps(r) + "\n")
    out.flush()
