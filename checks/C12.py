import random
import numpy as np
from vc import main
import pycheck
from pycheck import jlist


def algebra(c, MF):
    c.tlc("FacetSets", workers=8)
    consts = ('CONSTANTS\n  Cells = {%s}\n  Faces = {%s}\n  Dtypes = {"int32", "int64"}\n  MaxObjs = %d\n  MaxLen = %d\n'
              '  MaxOps = %d\nCHECK_DEADLOCK FALSE\n')
    scripts = []
    for k, (cells, faces, objs, ln, n) in enumerate([("0, 1, 2", "0, 1", 6, 3, 14), ("3, 4, 5", "0, 1, 2, 3, 4, 5", 8, 9, 25),
                                                     ("5", "0, 3", 5, 2, 10), ("11, 2, 900000", "2, 5", 10, 5, 30),
                                                     ("0, 536870912, 1073741824, 357913942, 2147483647", "0, 1, 4", 8, 6, 20)]):
        scripts += c.tlc("FacetSetsGen", workers=1, count=False, cfg_text="SPECIFICATION GSpec\n" + consts % (cells, faces, objs, ln, n),
                         args=["-simulate", f"num={c.pick(250, 2500)}", "-depth", "60", "-seed", c.seed * 7 + k]).cases
    recs = []
    for s in scripts:
        heap, rec, dead = [], [], False
        for e in s:
            e = dict(e)
            op = e["op"]
            A = heap[e["a"] - 1] if "a" in e else None
            B = heap[e["b"] - 1] if "b" in e else None
            new, err = None, None
            if op == "new":
                fs = e["fs"]
                new, err = pycheck.call(MF, np.array([p[0] for p in fs], dtype=e["dt"]), np.array([p[1] for p in fs], dtype=np.int32))
            elif op == "concat":
                new, err = pycheck.call(A.concatenate, B)
            elif op == "meet":
                new, err = pycheck.call(A.intersect, B, assume_unique=e["au"])
            elif op == "diff":
                new, err = pycheck.call(A.difference, B, assume_unique=e["au"])
            elif op == "unique":
                _, err = pycheck.call(A.unique)
            elif op == "find":
                r, err = pycheck.call(A.find, B)
                e["ok"] = err is None
                if err is None:
                    e["ans"] = jlist(r)
                elif err.startswith("ValueError"):
                    err = None
            elif op == "array":
                r, err = pycheck.call(A.as_array)
                if err is None:
                    e["ans"], e["adt"] = jlist(r), str(r.dtype)
            if err is not None:
                c.violation(f"{op} failed: {err}", {"script": s, "at": e})
                dead = True
                break
            if new is not None:
                heap.append(new)
            e["objs"] = [{"dt": str(o.cells_dtype), "fs": [list(p) for p in zip(jlist(o.cell_ids), jlist(o.local_facet_ids))],
                          "size": jlist(o.size), "empty": bool(o.empty), "fdt": str(o.local_facet_ids.dtype),
                          "items": [jlist(list(o[k])) for k in range(o.size)]} for o in heap]
            rec.append(e)
        if not dead:
            recs.append(rec)
    cfg = "SPECIFICATION TSpec\n" + consts % ("0", "0", 999, 999, 999999) + "CONSTRAINT Progress\nPOSTCONDITION Report\n"
    for i in c.judge("FacetSetsTrace", recs, cfg_text=cfg, chunk=1500):
        c.violation("operations on facet sets do not follow the algebra", {"recording": recs[i]})
    c.extra["operations"] = sum(len(r) for r in recs)
    c.sample(recs[0][:4])


def meshes_part(c, MF):
    import meshes
    from qugar.mesh import create_Cartesian_mesh
    from qugar.mesh import mesh_facets as mf
    rng = random.Random(c.seed * 31)
    obs = []

    def pairs(f):
        return [list(p) for p in zip(jlist(f.cell_ids), jlist(f.local_facet_ids))]

    for w in meshes.worlds(rng, c.pick(40, 400)):
        n = meshes.random_shape(rng, big=c.thorough)
        first = rng.choice(["all", "exterior", "interior", "ids"])
        for rank in range(w.size):
            what = {"cells": n, "size": w.size, "rank": rank, "owner": w.owner, "seed": w.seed, "ghosts": w.ghosts}
            m = pycheck.ask(c, "creating the mesh failed", what, create_Cartesian_mesh, w.comm(rank), n)
            if m is None:
                continue
            v = meshes.view(m)

            def put(op, f, fn, *a, **kw):
                r = pycheck.ask(c, f"{op} failed", dict(what, **kw), fn, *a)
                if r is not None:
                    obs.append(dict({"op": op, "view": v, "res": r if isinstance(r, list) else (jlist(r) if isinstance(r, np.ndarray) else pairs(r)),
                                     "dt": "" if not isinstance(r, MF) else str(r.cells_dtype)}, **kw))
                return r

            ids = [rng.randrange(v["nfacets"]) for _ in range(3)] if v["nfacets"] else []
            ids = list(dict.fromkeys(ids))
            todo = {
                "all": lambda: [put("all", 0, mf.create_all_mesh_facets, m, s, single=s) for s in (True, False)],
                "exterior": lambda: [put("exterior", 0, mf.create_exterior_mesh_facets, m)],
                "interior": lambda: [put("interior", 0, mf.create_interior_mesh_facets, m, s, single=s) for s in (True, False)],
                "ids": lambda: [put("ids", 0, mf.create_facets_from_ids, m, np.array(ids, dtype=np.int32), s, single=s, ask=ids) for s in (True, False)],
            }
            got = todo.pop(first)()        # every constructor comes first on some mesh
            for k in todo:
                got += todo[k]()
            fac = MF(np.array([p for p in range(len(v["orig"])) for _ in range(2 * v["dim"])], dtype=np.int32),
                     np.array([j for _ in v["orig"] for j in range(2 * v["dim"])], dtype=np.int32))
            if fac.size:
                put("facetids", 0, fac.get_facet_ids, m, ask=pairs(fac))
            o = put("toorig", 0, fac.to_original, m, ask=pairs(fac))
            # original -> DOLFINx, with cells of other processes among them
            tot = int(np.prod(n))
            cells = [rng.randrange(tot) for _ in range(10)] + ([int(o.cell_ids[0])] if o is not None and o.size else [])
            q = MF(np.array(cells, dtype=np.int64), np.array([rng.randrange(2 * v["dim"]) for _ in cells], dtype=np.int32))
            put("todlf", 0, q.to_DOLFINx, m, ask=pairs(q))
            if o is not None and o.size:
                put("todlf", 0, o.to_DOLFINx, m, ask=pairs(o))
    for i in c.judge("FacetMeshJudge", obs, cfg="Judge.cfg"):
        o = obs[i]
        c.violation(f"{o['op']}: {str(o['res'])[:150]}", o)
    c.sample(obs[1])


def run(c):
    import fenics_stub
    fenics_stub.install()
    from qugar.mesh.mesh_facets import MeshFacets as MF
    algebra(c, MF)
    meshes_part(c, MF)
    c.assumptions.append("DOLFINx is modelled: facets of a process are numbered owned first; exterior facets are the owned facets of one cell")


main("C12", run)
