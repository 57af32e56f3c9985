"""Stand-ins for the FEniCSx packages qugar's Python code imports.

None of dolfinx, ufl, ffcx, mpi4py, petsc4py, cffi, scipy is installed here.
`install()` registers permissive stand-in modules for them (an unknown
attribute becomes an empty class) and a small faithful model of a DOLFINx mesh:
cells, nodes and facets are renumbered and distributed as the harness says
(`WORLD`), cells follow the basix reference topology.  The qugar modules are the
real ones, from REPO/python.
"""
from __future__ import annotations

import importlib
import importlib.abc
import importlib.machinery
import os
import sys
import types
from pathlib import Path

import numpy as np

REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
ROOTS = {"dolfinx", "ufl", "ffcx", "mpi4py", "petsc4py", "cffi", "scipy"}


class AutoModule(types.ModuleType):
    """Module answering any attribute with a submodule or an empty class."""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name[:1].islower() and name in _SUBMODULES.get(self.__name__, ()):
            return importlib.import_module(self.__name__ + "." + name)
        cls = type(name, (_Auto,), {"__module__": self.__name__})
        setattr(self, name, cls)
        return cls


class _AutoMeta(type):
    def __getattr__(cls, name):
        if name.startswith("__"):
            raise AttributeError(name)
        v = _AutoMeta(name, (_Auto,), {"__module__": cls.__module__})
        setattr(cls, name, v)
        return v


class _Auto(metaclass=_AutoMeta):
    def __init__(self, *a, **k):
        pass


_SUBMODULES = {
    "dolfinx": {"mesh", "fem", "cpp", "jit", "la", "plot", "io"},
    "dolfinx.fem": {"assemble", "petsc", "forms"},
    "dolfinx.cpp": {"mesh", "fem", "graph", "la"},
    "dolfinx.la": {"petsc"},
    "ufl": {"geometry", "domain", "core", "algorithms", "integral", "measure", "operators", "protocols", "cell"},
    "ufl.core": {"expr"},
    "ufl.algorithms": {"analysis", "formdata"},
    "ffcx": {"analysis", "codegeneration", "ir", "options", "naming", "formatting"},
    "ffcx.codegeneration": {"codegeneration", "jit", "C"},
    "ffcx.ir": {"representation", "elementtables", "representationutils"},
    "ffcx.codegeneration.C": {"file_template"},
    "mpi4py": {"MPI"},
    "petsc4py": {"PETSc"},
    "scipy": {"spatial"},
}


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if name == "qugar.cpp":
            return importlib.machinery.ModuleSpec(name, self)
        if name.split(".")[0] in ROOTS:
            if name == "petsc4py" and not PETSC:
                raise ImportError("no petsc4py")
            return importlib.machinery.ModuleSpec(name, self, is_package=True)
        return None

    def create_module(self, spec):
        return _qugar_cpp() if spec.name == "qugar.cpp" else AutoModule(spec.name)

    def exec_module(self, module):
        fn = _FILL.get(module.__name__)
        if fn:
            fn(module)


PETSC = True
VERSIONS = {"dolfinx": "0.10.0", "ffcx": "0.10.0", "ufl": "2025.2.0"}


# -- MPI -------------------------------------------------------------------------
class Comm:
    """One process of WORLD; processes run one after the other, rank 0 first."""

    def __init__(self, world, rank):
        self.world, self.rank, self.size = world, rank, world.size
        self._n = 0

    def bcast(self, obj, root=0):
        self._n += 1
        if self.rank == root:
            self.world.mail[self._n] = obj
            return obj
        return self.world.mail[self._n]

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def Barrier(self):
        pass

    barrier = Barrier


class World:
    """How a mesh is renumbered and distributed by DOLFINx.

    owner[c]: process owning input cell c (all 0 when serial); order(rank,
    cells): local order; seed: renumberings of nodes and facets; ghosts: whether
    the neighbours' cells are added behind the owned ones."""

    def __init__(self, size=1, owner=None, seed=0, ghosts=False, identity=False):
        self.size, self.owner, self.seed, self.ghosts, self.identity = size, owner, seed, ghosts, identity
        self.mail = {}
        self.input = None

    def comm(self, rank=0):
        return Comm(self, rank)


class IndexMap:
    def __init__(self, owned_global_start, size_local, ghosts_global, size_global):
        self.size_local = int(size_local)
        self.local_range = [int(owned_global_start), int(owned_global_start + size_local)]
        self.size_global = int(size_global)
        self.ghosts = np.asarray(ghosts_global, dtype=np.int64)
        self.num_ghosts = int(self.ghosts.size)

    def local_to_global(self, local):
        local = np.asarray(local)
        g = np.concatenate([np.arange(self.local_range[0], self.local_range[1], dtype=np.int64), self.ghosts])
        if np.any(local < 0) or np.any(local >= g.size):
            raise RuntimeError("local index out of range")
        return g[local]


class Adjacency:
    def __init__(self, rows):
        self._rows = [np.asarray(r, dtype=np.int32) for r in rows]
        self.num_nodes = len(self._rows)
        self.array = np.concatenate(self._rows).astype(np.int32) if self._rows else np.empty(0, np.int32)
        self.offsets = np.cumsum([0] + [len(r) for r in self._rows]).astype(np.int32)

    def links(self, i):
        return self._rows[int(i)]

    def __len__(self):
        return self.num_nodes


class Topology:
    def __init__(self, dim, cell_name, original, cell_map, cell_facets, facet_map, facet_exterior, cell_vertices):
        self.dim = dim
        self._cell_name = cell_name
        self.original_cell_index = original
        self._cell_map = cell_map
        self._facet_map = facet_map
        self._exterior = facet_exterior      # owned facets of exactly one cell of the whole mesh
        self._conn = {}
        nf = facet_map.size_local + facet_map.num_ghosts
        rows = [[] for _ in range(nf)]
        for c, fs in enumerate(cell_facets):
            for f in fs:
                rows[f].append(c)
        self._avail = {(dim, dim - 1): Adjacency(cell_facets), (dim - 1, dim): Adjacency(rows),
                       (dim, 0): Adjacency(cell_vertices)}
        self._conn[(dim, 0)] = self._avail[(dim, 0)]
        self._facets_created = False

    def cell_name(self):
        return self._cell_name

    @property
    def cell_type(self):
        return self._cell_name

    def create_entities(self, d):
        if d == self.dim - 1:
            self._facets_created = True
        return True

    def create_connectivity(self, d0, d1):
        if self.dim - 1 in (d0, d1):
            self._facets_created = True
        if (d0, d1) in self._avail:
            self._conn[(d0, d1)] = self._avail[(d0, d1)]

    def connectivity(self, d0, d1):
        if (d0, d1) not in self._conn:
            raise RuntimeError(f"Connectivity between dimension {d0} and {d1} has not been computed.")
        return self._conn[(d0, d1)]

    def index_map(self, d):
        if d == self.dim:
            return self._cell_map
        if d == self.dim - 1:
            return self._facet_map if self._facets_created else None
        raise RuntimeError("index map not modelled")


class Geometry:
    def __init__(self, x, dim, dofmap, input_global_indices):
        self.x, self.dim, self.dofmap, self.input_global_indices = x, dim, dofmap, input_global_indices


class CppMesh:
    pass


FACET_VERTS = {1: [[0], [1]],
               2: [[0, 1], [0, 2], [1, 3], [2, 3]],
               3: [[0, 1, 2, 3], [0, 1, 4, 5], [0, 2, 4, 6], [1, 3, 5, 7], [2, 3, 6, 7], [4, 5, 6, 7]]}


def facet_vertices(name):
    import basix
    ct = getattr(basix.CellType, name)
    top = basix.topology(ct)
    return [list(v) for v in top[len(top) - 2]]


def build_mesh(comm, conn, cmap, x, partitioner=None):
    w = comm.world
    if comm.rank == 0:
        w.input = (np.array(conn), np.array(x))
    conn, x = w.input
    assert conn.dtype == np.int64, "cells have to be int64"
    name, degree, dim_nodes = cmap.cell, cmap.degree, cmap.dim
    tdim = {"interval": 1, "triangle": 2, "quadrilateral": 2, "tetrahedron": 3, "hexahedron": 3}[name]
    if conn.ndim != 2 or conn.shape[1] != dim_nodes:
        raise RuntimeError("cell connectivity does not fit the coordinate element")
    if conn.size and (conn.min() < 0 or conn.max() >= x.shape[0]):
        raise RuntimeError("node index out of range")
    nv = {"interval": 2, "triangle": 3, "quadrilateral": 4, "tetrahedron": 4, "hexahedron": 8}[name]
    nc = conn.shape[0]
    owner = np.zeros(nc, int) if w.owner is None else np.array([w.owner[c % len(w.owner)] for c in range(nc)])
    rng = np.random.default_rng(w.seed)

    def shuffled(xs):
        xs = np.array(xs, dtype=np.int64)
        return xs if w.identity else rng.permutation(xs)

    fv = facet_vertices(name)
    # facets of the whole input mesh
    keys = {}
    cf = []
    for c in range(nc):
        cf.append([keys.setdefault(tuple(sorted(conn[c, :nv][v] for v in vs)), len(keys)) for vs in fv])
    f_cells = [[] for _ in keys]
    for c in range(nc):
        for f in cf[c]:
            f_cells[f].append(c)
    per_rank = [shuffled(np.where(owner == r)[0]) for r in range(w.size)]
    starts = np.cumsum([0] + [len(p) for p in per_rank])
    cell_global = {}
    for r, p in enumerate(per_rank):
        for i, c in enumerate(p):
            cell_global[int(c)] = int(starts[r] + i)
    f_owner = [min(owner[c] for c in cs) for cs in f_cells]
    f_rank = [shuffled([f for f in range(len(keys)) if f_owner[f] == r]) for r in range(w.size)]
    f_starts = np.cumsum([0] + [len(p) for p in f_rank])
    f_global = {}
    for r, p in enumerate(f_rank):
        for i, f in enumerate(p):
            f_global[int(f)] = int(f_starts[r] + i)
    node_perm = shuffled(range(x.shape[0]))
    r = comm.rank
    own = [int(c) for c in per_rank[r]]
    ghosts = []
    if w.ghosts and w.size > 1:
        fs = {f for c in own for f in cf[c]}
        ghosts = sorted({c for f in fs for c in f_cells[f] if owner[c] != r})
        ghosts = [int(c) for c in shuffled(ghosts)]
    local = own + ghosts
    lf = {}
    local_facets = [int(f) for f in f_rank[r] if any(c in set(local) for c in f_cells[int(f)])]
    # facets owned by this process are numbered first
    others = [f for f in dict.fromkeys(f for c in local for f in cf[c]) if f_owner[f] != r]
    for i, f in enumerate(local_facets + others):
        lf[f] = i
    cmap_i = IndexMap(starts[r], len(own), [cell_global[c] for c in ghosts], nc)
    fmap_i = IndexMap(f_starts[r], len(local_facets), [f_global[f] for f in others], len(keys))
    ext = np.array(sorted(lf[f] for f in local_facets if len(f_cells[f]) == 1), dtype=np.int32)
    nodes = [int(n) for n in node_perm if n in {int(k) for c in local for k in conn[c]}]
    ln = {n: i for i, n in enumerate(nodes)}
    m = CppMesh()
    m.comm = comm
    m.topology = Topology(tdim, name, np.array(local, dtype=np.int64), cmap_i, [[lf[f] for f in cf[c]] for c in local],
                          fmap_i, ext, [[ln[int(k)] for k in conn[c, :nv]] for c in local])
    gdim = 1 if x.ndim == 1 else x.shape[1]
    xx = np.zeros((len(nodes), 3), dtype=x.dtype)
    if nodes:
        xx[:, :gdim] = x.reshape(x.shape[0], gdim)[nodes]
    m.geometry = Geometry(xx, gdim, np.array([[ln[int(k)] for k in conn[c]] for c in local], dtype=np.int32).reshape(len(local), dim_nodes),
                          np.array(nodes, dtype=np.int64))
    m.facet_cells_input = f_cells
    return m


class Mesh:
    def __init__(self, mesh, domain):
        self._cpp_object = mesh
        self._topology = mesh.topology
        self._geometry = mesh.geometry
        self._ufl_domain = domain
        if domain is not None:
            domain._ufl_cargo = mesh

    @property
    def comm(self):
        return self._cpp_object.comm

    @property
    def topology(self):
        return self._topology

    @property
    def geometry(self):
        return self._geometry

    def ufl_domain(self):
        return self._ufl_domain

    def ufl_cell(self):
        return self._ufl_domain.ufl_cell()


class MeshTags:
    def __init__(self, mesh, dim, indices, values):
        self.mesh, self.dim, self.indices, self.values = mesh, dim, indices, values

    def find(self, v):
        return self.indices[self.values == v]


def _meshtags(mesh, dim, entities, values):
    if np.isscalar(values):
        values = np.full(entities.shape, values, dtype=np.int32)
    return MeshTags(mesh, dim, np.asarray(entities), np.asarray(values))


def _exterior(topology):
    if (topology.dim - 1, topology.dim) not in topology._conn:
        raise RuntimeError("Facet to cell connectivity has not been computed.")
    return topology._exterior.copy()


# -- elements ---------------------------------------------------------------------
class Element:
    def __init__(self, family, cell, degree, shape=(), dtype=np.float64, **kw):
        self.family, self.cell_name_, self.degree, self.shape, self.dtype = family, _cell_name(cell), degree, shape, np.dtype(dtype)
        self.cell = _cell_name(cell)
        n = degree + 1
        self.dim = {"interval": n, "quadrilateral": n ** 2, "hexahedron": n ** 3,
                    "triangle": n * (n + 1) // 2, "tetrahedron": n * (n + 1) * (n + 2) // 6}[self.cell]
        self.basix_element = self

    @property
    def block_size(self):
        return int(np.prod(self.shape)) if self.shape else 1


def _cell_name(c):
    return c if isinstance(c, str) else c.name


class UflMesh:
    def __init__(self, element, ufl_id=None, cargo=None):
        self._e = element
        self._ufl_cargo = cargo

    def ufl_coordinate_element(self):
        return self._e

    def ufl_cargo(self):
        return self._ufl_cargo

    def ufl_id(self):
        return id(self)

    def topological_dimension(self):
        return {"interval": 1, "triangle": 2, "quadrilateral": 2, "tetrahedron": 3, "hexahedron": 3}[self._e.cell]


class CMap:
    def __init__(self, e):
        self.dim, self.cell, self.degree = e.dim, e.cell, e.degree
        self._cpp_object = self


class KDTree:
    def __init__(self, data):
        self.d = np.asarray(data)

    def query_pairs(self, r, output_type="set"):
        n = self.d.shape[0]
        res = []
        for i in range(n):
            dist = np.sqrt(((self.d[i + 1:] - self.d[i]) ** 2).sum(axis=1)) if i + 1 < n else np.empty(0)
            res += [(i, int(i + 1 + j)) for j in np.where(dist <= r)[0]]
        return np.array(res, dtype=np.intp).reshape(-1, 2) if output_type == "ndarray" else set(res)


class GhostMode:
    none = "none"
    shared_facet = "shared_facet"
    shared_vertex = "shared_vertex"


def _fill_dolfinx(m):
    m.__version__ = VERSIONS.get("dolfinx_py", VERSIONS["dolfinx"])


def _fill_dolfinx_cpp(m):
    m.__version__ = VERSIONS["dolfinx"]


def _fill_mesh(m):
    m.Mesh, m.MeshTags, m.meshtags, m.exterior_facet_indices, m.GhostMode = Mesh, MeshTags, _meshtags, _exterior, GhostMode


def _fill_cpp_mesh(m):
    m.GhostMode = GhostMode
    m.create_mesh = build_mesh
    m.create_cell_partitioner = lambda mode, *a: ("partitioner", mode)


def _fill_fem(m):
    m.assemble_scalar = importlib.import_module("dolfinx.fem.assemble").assemble_scalar
    m.coordinate_element = lambda e, *a, **k: CMap(e)


def _fill_ufl(m):
    m.__version__ = VERSIONS["ufl"]
    m.Mesh = UflMesh


def _fill_ffcx(m):
    m.__version__ = VERSIONS["ffcx"]


def _fill_mpi(m):
    m.MPI = m
    m.Comm = Comm
    m.Intracomm = Comm
    m.COMM_WORLD = World().comm(0)
    m.COMM_SELF = World().comm(0)


def _fill_assemble(m):
    def assemble_scalar(M, constants=None, coeffs=None):
        """as shipped with DOLFINx 0.10: given coefficients are dropped"""
        constants = m.pack_constants(M) if constants is None else constants
        coeffs = m.pack_coefficients(M) if coeffs is None else constants
        return ["upstream", M._cpp_object, constants, coeffs]
    m.assemble_scalar = assemble_scalar
    m.pack_constants = lambda M: "constants"
    m.pack_coefficients = lambda M: "coefficients"


def _fill_cpp_fem(m):
    m.assemble_scalar = lambda form, constants, coeffs: ["cpp", form, constants, coeffs]


def _fill_spatial(m):
    m.KDTree = KDTree


_FILL = {"dolfinx": _fill_dolfinx, "dolfinx.cpp": _fill_dolfinx_cpp, "dolfinx.mesh": _fill_mesh,
         "dolfinx.cpp.mesh": _fill_cpp_mesh, "dolfinx.fem": _fill_fem, "ufl": _fill_ufl, "ffcx": _fill_ffcx,
         "mpi4py.MPI": _fill_mpi, "dolfinx.fem.assemble": _fill_assemble, "dolfinx.cpp.fem": _fill_cpp_fem, "scipy.spatial": _fill_spatial}


# -- qugar.cpp ---------------------------------------------------------------------
class _Grid:
    def __init__(self, breaks):
        self.cell_breaks = [np.asarray(b, dtype=np.float64) for b in breaks]
        self.dim = len(breaks)
        self.num_cells_dir = np.array([b.size - 1 for b in self.cell_breaks], dtype=np.int32)
        self.num_cells = int(np.prod(self.num_cells_dir))


class CartGridTP_2D(_Grid):
    pass


class CartGridTP_3D(_Grid):
    pass


def create_cart_grid(breaks):
    return (CartGridTP_2D if len(breaks) == 2 else CartGridTP_3D)(breaks)


def _qugar_cpp():
    m = AutoModule("qugar.cpp")
    m.__doc__ = "stand-in"
    m.__version__ = "0"
    m.CartGridTP_2D, m.CartGridTP_3D, m.create_cart_grid = CartGridTP_2D, CartGridTP_3D, create_cart_grid
    return m


_installed = False


def install(petsc=True, real_basix_ufl=False):
    """Make `import qugar` work with the stand-ins."""
    global _installed, PETSC
    if _installed:
        return sys.modules.get("qugar")
    PETSC = petsc
    sys.meta_path.insert(0, _Finder())
    import basix
    if real_basix_ufl:
        importlib.import_module("basix.ufl")
    else:
        bu = AutoModule("basix.ufl")
        bu.element = lambda family, cell, degree, **k: Element(family, cell, degree, **k)
        sys.modules["basix.ufl"] = bu
        basix.ufl = bu
    sys.path.insert(0, str(REPO / "python"))
    import qugar
    _installed = True
    return qugar
