"""Operations of pyapi.py on the structures of qugar.plot."""
import gc
import numpy as np
import dolfinx.plot
import qugar.cpp as cpp
import qugar.plot as qp
import qugar.reparam
from qugar.plot.pyvista_tools import grid_tp_to_PyVista
import fenics_stub

Q = 32


def bind(api):
    make, units, moments, proper = api["make"], api["units"], api["moments"], api["proper"]

    def world(o):
        """-> domain, its cell ids in DOLFINx's order, boxes of the background grid"""
        phi = make(o["phi"])
        if "grid" in o:
            g = make(o["grid"])
            dom = cpp.create_unfitted_impl_domain(phi.cpp_object, g, *([make(o["given"])] if "given" in o else []))
            ids = []
        else:
            comm = fenics_stub.World(seed=o["seed"]).comm(0)
            dom = qugar.mesh.create_unfitted_impl_Cartesian_mesh(comm, phi, make(o["n"]), **{k: make(v) for k, v in o["kw"].items()})
            g = dom.cpp_unf_domain_object.grid
            ids = dom.get_original_cell_ids(np.arange(dom.num_local_cells, dtype=np.int32)).tolist()
        boxes = [g.get_cell_domain(k).as_array() for k in range(int(np.prod(g.num_cells_dir)))]
        return dom, ids, boxes

    def cells_of(g, names):
        """box, arrays of each cell"""
        data = [g.cell_data[k].tolist() for k in names]
        rows = []
        for k, c in enumerate(g.cells):
            p = g.points[c]
            rows.append({"lo": units(p.min(axis=0), Q), "hi": units(p.max(axis=0), Q), "v": [d[k] for d in data]})
        return rows, sorted(set(g.cell_data.arrays) - set(names))

    LEX, LOC, GLOB = "Lexicographical cell ids", "DOLFINx local cell ids", "DOLFINx global cell ids"
    CST, FST = "Cell status (0: full, 1: cut, 2: empty)", "Facet status (0: full, 1: cut, 2: empty)"
    LF, DF = "Lexicographical local facets ids", "DOLFINx local facets ids"

    def plot(o):
        dom, ids, boxes = world(o)
        own = [] if "grid" in o else [LOC, GLOB]
        kw = o["flags"]
        if o["what"] == "grid":
            src = dom.grid if "grid" in o else dom
            g = (qp.cart_grid_tp_to_PyVista if o["direct"] else grid_tp_to_PyVista)(src)
            rows, more = cells_of(g, [LEX] + own)
        elif o["what"] == "cells":
            rows, more = cells_of(qp.unfitted_domain_to_PyVista(dom, **kw), [LEX, CST] + own)
        elif o["what"] == "facets":
            rows, more = cells_of(qp.unfitted_domain_facets_to_PyVista(dom, **kw), [LEX, CST, LF, FST] + own + ([DF] if own else []))
        else:
            return quad(o, dom, ids, boxes, own)
        return {"rows": rows, "more": more, "ids": ids}

    def quad(o, dom, ids, boxes, own):
        b = qp.quadrature_to_PyVista(dom, **({"n_pts_dir": o["npts"]} if o["npts"] != 4 else {}))
        d = boxes[0].shape[0]
        r = {"ids": ids, "names": list(b)}
        for short, name, extra in (("vol", "Cut cells quadrature", []), ("unf", "Unfitted boundary quadrature", ["Normals"]),
                                   ("fac", "Cut/unfitted facets quadrature", [LF] + ([DF] if own else []))):
            g = b.get(name)
            names = [LEX, "Weights"] + own + extra
            r[short + "_ok"] = bool((g.celltypes == 1).all() and g.cells == [[k] for k in range(len(g.points))]
                                    and sorted(g.cell_data.arrays) == sorted(names)
                                    and g.points.shape[1] == 3 and (g.points[:, d:] == 0).all())
            groups, order = {}, []
            for k, x in enumerate(g.points):
                key = (int(g.cell_data[LEX][k]), *[int(g.cell_data[m][k]) for m in own + extra if m != "Normals"])
                if key not in groups:
                    groups[key] = []
                    order.append(key)
                groups[key].append(k)
            out = []
            for key in order:
                s = groups[key]
                box = boxes[key[0]]
                p = (g.points[s][:, :d] - box[:, 0]) / (box[:, 1] - box[:, 0])
                w = g.cell_data["Weights"][s]
                e = {"v": list(key), "n": len(s), "ok": proper(p, w)}
                if short == "vol":
                    e["m"] = moments(p, w, range(d))
                elif short == "fac":
                    f = key[1 + len(own)]
                    e["ok"] = e["ok"] and bool((np.abs(p[:, f // 2] - f % 2) < 1e-12).all())
                    e["m"] = moments(p, w, [j for j in range(d) if j != f // 2])
                else:
                    u = g.cell_data["Normals"][s]
                    e["ok"] = e["ok"] and u.shape == (len(s), 3) and bool((u[:, d:] == 0).all())
                    e["pieces"], used = [], 0
                    for k in range(d):
                        n = np.zeros(d)
                        for sg in (-1, 1):
                            n[k] = sg
                            for half in (0, 1, 2):
                                sel = (np.abs(u[:, :d] - n).sum(axis=1) < 1e-9) & (np.abs(p[:, k] - half / 2) < 1e-9)
                                if sel.any():
                                    used += int(sel.sum())
                                    e["pieces"].append({"d": k, "s": sg, "at": half, "m": moments(p[sel], w[sel], [j for j in range(d) if j != k])})
                    e["ok"] = e["ok"] and used == len(s)
                out.append(e)
            r[short] = out
        return r

    def shown(o):
        """a reparameterization"""
        phi, g = make(o["phi"]), make(o["grid"])
        dom = cpp.create_unfitted_impl_domain(phi.cpp_object, g)

        class Unf:
            cpp_unf_domain_object = dom

            class mesh:
                comm = "comm"
        rm = qugar.reparam.create_reparam_mesh(Unf, degree=o["npts"] - 1, levelset=o["levelset"])
        k = rm.cpp_object
        b = qp.reparam_mesh_to_PyVista(k)
        r = {"names": list(b), "conn": k.cells_conn.tolist(), "wire": k.wirebasket_conn.tolist(), "dim": k.dim}
        pts = k.points
        for short, name in (("cells", "reparam"), ("wires", "wirebasket")):
            x = b.get(name)
            r[short] = x.cells
            r[short + "_type"] = sorted({int(t) for t in x.celltypes})
            r[short + "_pts"] = bool(np.array_equal(x.points[:, :pts.shape[1]], pts) and (x.points[:, pts.shape[1]:] == 0).all())
        # through DOLFINx
        import dolfinx.mesh as dm
        made = []
        dm.create_mesh = lambda comm, conn, e, x, partitioner=None: made.append((np.array(conn), np.array(x))) or len(made) - 1
        dolfinx.plot.vtk_mesh = lambda m: (
            np.hstack([np.full((len(made[m][0]), 1), made[m][0].shape[1]), made[m][0]]).ravel(), np.full(len(made[m][0]), 70),
            np.hstack([made[m][1], np.zeros((len(made[m][1]), 3 - made[m][1].shape[1]))]))
        b = qp.reparam_mesh_to_PyVista(rm)
        r["dnames"], r["dcells"], r["dwires"] = list(b), b.get("reparam").cells, b.get("wirebasket").cells
        gc.collect()
        return r

    return dict(plot=plot, shown=shown)
