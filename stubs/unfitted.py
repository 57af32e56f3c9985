"""Stand-in for the C++ unfitted domain: the harness says the status of every cell and facet."""
import types
import numpy as np

IN = {"cut": {"cut", "cut_unf_bdry", "cut_ext_bdry", "cut_unf_bdry_ext_bdry"}, "full": {"full"}, "empty": {"empty", "full_ext_bdry", "ext_bdry"},
      "full_unf": {"full_unf_bdry"}, "unf": {"cut_unf_bdry", "cut_unf_bdry_ext_bdry", "full_unf_bdry", "unf_bdry", "unf_bdry_ext_bdry"}}
STATUSES = ["cut", "full", "empty", "cut_unf_bdry", "cut_ext_bdry", "cut_unf_bdry_ext_bdry", "full_unf_bdry", "full_ext_bdry", "unf_bdry",
            "ext_bdry", "unf_bdry_ext_bdry"]


class UnfittedDomain:
    def __init__(self, grid, cells, recs):
        self.grid, self.cells, self.recs = grid, cells, recs
        self.dim, self.num_total_cells = grid.dim, grid.num_cells

    @property
    def has_facets_with_unf_bdry(self):
        return any(s in IN["unf"] for r in self.recs for s in r)

    def _cells(self, kind, target):
        t = range(len(self.cells)) if target is None else self._arr(target, np.int64)
        return np.array(sorted(int(k) for k in t if self.cells[k] == kind), dtype=np.int64)

    @staticmethod
    def _arr(a, dt):
        if not isinstance(a, np.ndarray) or a.ndim != 1 or a.dtype != dt:
            raise TypeError(f"incompatible function arguments: {type(a)} {getattr(a, 'dtype', '')}")
        return a

    def status(self, c, f):
        return self.recs[c][f] if self.recs[c] else self.cells[c]

    def _facets(self, kind, cells, facets):
        if cells is None:
            nf = 2 * self.dim
            cells = np.repeat(np.arange(self.num_total_cells), nf)
            facets = np.tile(np.arange(nf), self.num_total_cells)
        else:
            self._arr(cells, np.int64), self._arr(facets, np.int32)
        keep = [k for k, (c, f) in enumerate(zip(cells, facets)) if self.status(int(c), int(f)) in IN[kind]]
        return np.array(cells[keep], dtype=np.int64), np.array(facets[keep], dtype=np.int32)

    def get_cut_cells(self, target_cell_ids=None):
        return self._cells("cut", target_cell_ids)

    def get_full_cells(self, target_cell_ids=None):
        return self._cells("full", target_cell_ids)

    def get_empty_cells(self, target_cell_ids=None):
        return self._cells("empty", target_cell_ids)

    def get_cut_facets(self, target_cell_ids=None, target_local_facet_ids=None):
        return self._facets("cut", target_cell_ids, target_local_facet_ids)

    def get_full_facets(self, target_cell_ids=None, target_local_facet_ids=None):
        return self._facets("full", target_cell_ids, target_local_facet_ids)

    def get_empty_facets(self, target_cell_ids=None, target_local_facet_ids=None):
        return self._facets("empty", target_cell_ids, target_local_facet_ids)

    def get_unf_bdry_facets(self, target_cell_ids=None, target_local_facet_ids=None):
        return self._facets("unf", target_cell_ids, target_local_facet_ids)

    def get_full_unf_bdry_facets(self, target_cell_ids=None, target_local_facet_ids=None):
        return self._facets("full_unf", target_cell_ids, target_local_facet_ids)


class Quads:
    """The quadrature creators of qugar.cpp: what they are asked is recorded, what they answer is a fresh object."""

    def __init__(self):
        self.calls = []

    def _new(self, kind, dom, ents, n, dim, pdim, flags=None):
        k = len(self.calls)
        npts = np.array([(7 * j + k) % 4 for j in range(len(ents))], dtype=np.int32)
        tot = int(npts.sum())
        q = types.SimpleNamespace(n_pts_per_entity=npts, points=np.arange(tot * pdim, dtype=np.float64).reshape(tot, pdim) + .25 * k,
                                  weights=np.arange(tot, dtype=np.float64) + .5 * k, normals=np.arange(tot * pdim, dtype=np.float64).reshape(tot, pdim) + .125 * k)
        self.calls.append((kind, dom, ents, n, flags, q))
        return q

    def create_quadrature(self, unf_domain, cells, n_pts_dir):
        UnfittedDomain._arr(cells, np.int64)
        return self._new("cells", unf_domain, cells.tolist(), n_pts_dir, unf_domain.dim, unf_domain.dim)

    def create_unfitted_bound_quadrature(self, unf_domain, cells, n_pts_dir, include_facet_unf_bdry, exclude_ext_bdry):
        UnfittedDomain._arr(cells, np.int64)
        return self._new("bdry", unf_domain, cells.tolist(), n_pts_dir, unf_domain.dim, unf_domain.dim,
                         [bool(include_facet_unf_bdry), bool(exclude_ext_bdry)])

    def _facets(self, kind, dom, cells, facets, n):
        UnfittedDomain._arr(cells, np.int64), UnfittedDomain._arr(facets, np.int32)
        return self._new(kind, dom, [list(p) for p in zip(cells.tolist(), facets.tolist())], n, dom.dim, dom.dim - 1)

    def create_facets_quadrature_interior_integral(self, unf_domain, cells, facets, n_pts_dir):
        return self._facets("int", unf_domain, cells, facets, n_pts_dir)

    def create_facets_quadrature_exterior_integral(self, unf_domain, cells, facets, n_pts_dir):
        return self._facets("ext", unf_domain, cells, facets, n_pts_dir)

    def install(self, module):
        for k in ("create_quadrature", "create_unfitted_bound_quadrature", "create_facets_quadrature_interior_integral",
                  "create_facets_quadrature_exterior_integral"):
            setattr(module, k, getattr(self, k))


def random_domain(rng, grid):
    """Statuses consistent with the geometry: the two sides of a facet agree on the part inside."""
    n, d = grid.num_cells, grid.dim
    mode = rng.choice(["mixed", "mixed", "mixed", "full", "empty", "cut"])
    cells = [rng.choice(["cut", "full", "empty"]) if mode == "mixed" else mode for _ in range(n)]
    style = rng.choice(["all", "nounf", "rare"])
    pool = STATUSES if style != "nounf" else ["cut", "full", "empty"]
    recs = []
    for s in cells:
        if s == "cut":
            recs.append([rng.choice(pool) if style != "rare" or rng.random() < .2 else rng.choice(["cut", "full", "empty"]) for _ in range(2 * d)])
        elif s == "full" and style != "nounf" and rng.random() < .3:
            r = [rng.choice(["full", "full_unf_bdry"]) for _ in range(2 * d)]
            recs.append(r)
        else:
            recs.append([])
    return UnfittedDomain(grid, cells, recs)
