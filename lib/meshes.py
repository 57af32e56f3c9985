"""Meshes with harness-chosen renumbering and distribution, for the Python checks."""
import random
import fenics_stub as fs

fs.install()
import numpy as np  # noqa: E402
from pycheck import jlist  # noqa: E402


def worlds(rng, n):
    """n random worlds: serial/parallel, ghosts or not."""
    for _ in range(n):
        size = rng.choice([1, 1, 2, 3])
        owner = None if size == 1 else [rng.randrange(size) for _ in range(rng.randint(3, 40))]
        yield fs.World(size=size, owner=owner, seed=rng.randrange(2 ** 31), ghosts=rng.random() < .5,
                       identity=rng.random() < .1)


def view(m):
    """Ground truth of one process, read from the stand-in topology (not from qugar)."""
    t = m._cpp_object.topology
    d = t.dim
    c2f = t._avail[(d, d - 1)]
    return {"dim": d, "orig": jlist(t.original_cell_index), "nown": t._cell_map.size_local,
            "c2f": [jlist(r) for r in c2f._rows], "nfacets": t._facet_map.size_local, "ext": jlist(t._exterior)}


def random_shape(rng, dim=None, big=False):
    dim = dim or rng.choice([2, 2, 3])
    lim = {1: 9, 2: 5, 3: 3}[dim] + (2 if big else 0)
    return [rng.randint(1, lim) for _ in range(dim)]
