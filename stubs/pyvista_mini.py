"""Stands in for pyvista: the data structures qugar.plot builds, with VTK's orders of cells, edges and faces."""
import importlib.machinery
import sys
import types
import numpy as np


class CellType:
    VERTEX, LINE, PIXEL, QUAD, VOXEL, HEXAHEDRON = 1, 3, 8, 9, 11, 12
    LAGRANGE_CURVE, LAGRANGE_QUADRILATERAL, LAGRANGE_HEXAHEDRON = 68, 70, 72


class _Data:
    """named arrays with one row per cell"""

    def __init__(self, n):
        self.n, self.arrays = n, {}

    def __setitem__(self, k, v):
        v = np.array(v)
        if len(v) != self.n:
            raise ValueError(f"array {k} of {len(v)} rows for {self.n} cells")
        self.arrays[k] = v

    def __getitem__(self, k):
        return self.arrays[k]

    def __contains__(self, k):
        return k in self.arrays

    def pop(self, k):
        return self.arrays.pop(k)


class DataSet:
    """cells: points of each, in VTK's order of the cell type"""

    def __init__(self, cells, types_, points, arrays=None):
        self.cells, self.celltypes, self.points = cells, np.asarray(types_), points
        self.n_cells = len(cells)
        self.cell_data = _Data(self.n_cells)
        for k, v in (arrays or {}).items():
            self.cell_data[k] = v

    def _take(self, ids):
        return UnstructuredGrid._of([self.cells[k] for k in ids], self.celltypes[ids], self.points,
                                    {k: v[ids] for k, v in self.cell_data.arrays.items()})

    def threshold(self, value, scalars):
        return self._take(np.flatnonzero(self.cell_data[scalars] >= value))

    def extract_cells(self, ind):
        ind = np.asarray(ind)
        if ind.size and (ind.min() < 0 or ind.max() >= self.n_cells):
            raise IndexError("no such cell")
        return self._take(np.unique(ind.astype(np.int64)))

    def explode(self, factor=0.1):
        if factor != 0:
            raise NotImplementedError
        pts = [self.points[p] for c in self.cells for p in c]
        at, cells = 0, []
        for c in self.cells:
            cells.append(list(range(at, at + len(c))))
            at += len(c)
        return UnstructuredGrid._of(cells, self.celltypes, np.array(pts).reshape(-1, 3), dict(self.cell_data.arrays))

    def _sides(self, kind, table):
        used = [p for c in self.cells for p in c]
        if len(set(used)) != len(used) or (self.celltypes != kind).any():
            raise NotImplementedError("sides of cells that share points")
        of = np.repeat(np.arange(self.n_cells), len(table))
        return UnstructuredGrid._of([[c[k] for k in t] for c in self.cells for t in table], np.zeros(len(of), dtype=int), self.points,
                                    {k: v[of] for k, v in self.cell_data.arrays.items()})

    def extract_all_edges(self):
        # vtkPixel::EdgeArray
        return self._sides(CellType.PIXEL, [(0, 1), (1, 3), (2, 3), (0, 2)])

    def extract_surface(self):
        # the quads of a voxel in the order of vtkDataSetSurfaceFilter
        return self._sides(CellType.VOXEL, [(0, 1, 5, 4), (0, 2, 3, 1), (0, 4, 6, 2), (1, 3, 7, 5), (2, 6, 7, 3), (4, 5, 7, 6)])


class UnstructuredGrid(DataSet):
    def __init__(self, cells, celltypes, points):
        flat, out, at = np.asarray(cells).reshape(-1), [], 0
        while at < len(flat):
            out.append(flat[at + 1:at + 1 + flat[at]].tolist())
            at += 1 + flat[at]
        points = np.asarray(points)
        if points.ndim != 2 or points.shape[1] != 3 or len(out) != len(celltypes):
            raise ValueError("cells or points of an unstructured grid")
        if any(not 0 <= p < len(points) for c in out for p in c):
            raise ValueError("points of the cells")
        super().__init__(out, celltypes, points)

    @staticmethod
    def _of(cells, celltypes, points, arrays):
        g = object.__new__(UnstructuredGrid)
        DataSet.__init__(g, cells, celltypes, points, arrays)
        return g


class RectilinearGrid(DataSet):
    """cells with the first direction fastest: pixels and voxels"""

    def __init__(self, *xyz):
        d = len(xyz)
        axes = [np.asarray(a) for a in xyz] + [np.zeros(1)] * (3 - d)
        n = [len(a) for a in axes]
        pts = np.array([[axes[0][i], axes[1][j], axes[2][k]] for k in range(n[2]) for j in range(n[1]) for i in range(n[0])])
        at = lambda t: t[0] + n[0] * (t[1] + n[1] * t[2])
        m = [max(k - 1, 1) for k in n]
        cells = []
        for c in range(m[0] * m[1] * m[2]):
            o = (c % m[0], c // m[0] % m[1], c // m[0] // m[1])
            cells.append([at([o[k] + (j >> k & 1) for k in range(3)]) for j in range(2 ** d)])
        super().__init__(cells, [{1: CellType.LINE, 2: CellType.PIXEL, 3: CellType.VOXEL}[d]] * len(cells), pts)


class MultiBlock(dict):
    pass


def install():
    m = types.ModuleType("pyvista")
    m.__spec__ = importlib.machinery.ModuleSpec("pyvista", None)
    for c in (CellType, DataSet, UnstructuredGrid, RectilinearGrid, MultiBlock):
        setattr(m, c.__name__, c)
    m.Grid = DataSet
    sys.modules["pyvista"] = m
