"""Unfitted Cartesian meshes over the stand-in C++ domain."""
import sys
import meshes
import fenics_stub
import numpy as np
import unfitted


def make(c, rng, w, rank, spec, pycheck, what):
    """(mesh, stand-in domain, input cells) of one process; spec is drawn once per world."""
    from qugar.mesh import UnfittedCartMesh
    grid = spec["grid"]
    sent = {}
    orig_build = fenics_stub.build_mesh

    def spy(cm, conn, cmap, x, partitioner=None):
        sent.update(conn=np.array(conn))
        return orig_build(cm, conn, cmap, x, partitioner)
    sys.modules["dolfinx.cpp.mesh"].create_mesh = spy
    m = pycheck.ask(c, "UnfittedCartMesh failed", what, UnfittedCartMesh, w.comm(rank), spec["dom"], grid, spec["degree"], spec["exclude"])
    sys.modules["dolfinx.cpp.mesh"].create_mesh = orig_build
    return m, sent


def draw(rng, shape, exclude=None):
    grid = fenics_stub.create_cart_grid([np.linspace(0., 1., k + 1) for k in shape])
    dom = unfitted.random_domain(rng, grid)
    exclude = (rng.random() < .5) if exclude is None else exclude
    if exclude and all(s == "empty" for s in dom.cells):
        exclude = False
    return {"grid": grid, "dom": dom, "degree": rng.choice([1, 1, 2]), "exclude": exclude}


def view(m, spec):
    """The mesh as this process sees it, original ids being those of the grid."""
    v = meshes.view(m)
    if spec["exclude"]:
        act = [k for k, s in enumerate(spec["dom"].cells) if s != "empty"]
        v["orig"] = [act[r] for r in v["orig"]]
    return v
