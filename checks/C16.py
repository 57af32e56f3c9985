import random
from vc import main
import pycheck
from pycheck import jlist


def pairs(f):
    return [list(p) for p in zip(jlist(f.cell_ids), jlist(f.local_facet_ids))]


def run(c):
    import meshes
    import unfmesh
    c.tlc("UnfittedStatusLaws", workers=8)
    rng = random.Random(c.seed * 17)
    obs = []

    def given(ext):
        """the default is that of exterior integrals"""
        return () if ext and rng.random() < .3 else (ext,)
    ops = [("facets", e, k) for e in (True, False) for k in ("cut", "full", "empty")] + [("all", True, ""), ("all", False, ""),
                                                                                         ("tags", True, ""), ("tags", False, "")]
    for w in meshes.worlds(rng, c.pick(90, 700)):
        n = meshes.random_shape(rng)
        sp = unfmesh.draw(rng, n)
        dom = sp["dom"]
        order = ops + [rng.choice(ops) for _ in range(8)]
        rng.shuffle(order)
        tagsets = [{k: rng.randint(1, 3) for k in rng.sample(["cut", "full", "empty"], rng.randint(1, 3))} for _ in order]
        for rank in range(w.size):
            what = {"cells": n, "size": w.size, "rank": rank, "owner": w.owner, "seed": w.seed, "ghosts": w.ghosts, "exclude": sp["exclude"],
                    "status": dom.cells, "facets": dom.recs}
            m, _ = unfmesh.make(c, rng, w, rank, sp, pycheck, what)
            if m is None:
                break
            base = {"view": unfmesh.view(m, sp), "cells": dom.cells, "recs": dom.recs}
            for k, (op, ext, kind) in enumerate(order):
                w2 = dict(what, op=op, ext=ext, kind=kind)
                if op == "facets":
                    r = pycheck.ask(c, f"get_{kind}_facets failed", w2, getattr(m, f"get_{kind}_facets"), *given(ext))
                    if r is not None:
                        obs.append(dict(base, op="facets", ext=ext, kind=kind, res=pairs(r), after=order[:k]))
                elif op == "all":
                    r = pycheck.ask(c, "get_all_facets failed", w2, m.get_all_facets, *given(ext))
                    if r is not None:
                        obs.append(dict(base, op="all", ext=ext, res=pairs(r), after=order[:k]))
                else:
                    tags = tagsets[k]
                    r = pycheck.ask(c, "create_facet_tags failed", w2, m.create_facet_tags,
                                    **dict(zip(["ext_integral"], given(ext))), **{f"{q}_tag": t for q, t in tags.items()})
                    if r is not None:
                        obs.append(dict(base, op="facettags", ext=ext, tags=tags, res=[int(t) for t, _ in r], values=[jlist(a) for _, a in r],
                                        after=order[:k]))
    for i in c.judge("UnfittedJudge", obs, cfg="Judge.cfg", chunk=1500):
        o = obs[i]
        c.violation(f"{o['op']} {'exterior' if o['ext'] else 'interior'} {o.get('kind', '')}: {str(o['res'])[:150]}", o)
    c.extra["statuses"] = len({s for o in obs for r in o["recs"] for s in r})
    c.sample({k: v for k, v in obs[0].items() if k != "view"})
    c.assumptions.append("the C++ unfitted domain (C22) and DOLFINx are modelled; statuses are drawn freely, also combinations no geometry yields")


main("C16", run)
