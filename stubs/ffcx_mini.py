"""The parts of UFL, FFCx and DOLFINx that qugar's form compilation and packing use.

Only data structures: elements are the real ones of basix.ufl, integrals are made by lib/kernelworld.py.
"""
import collections
import enum
import hashlib

import basix
import numpy as np

import fenics_stub as fs

TDIM = {"vertex": 0, "interval": 1, "triangle": 2, "quadrilateral": 2, "tetrahedron": 3, "hexahedron": 3}
FACET = {"triangle": "interval", "quadrilateral": "interval", "tetrahedron": "triangle", "hexahedron": "quadrilateral"}


class AbstractCell:
    pass


class Cell(AbstractCell):
    def __init__(self, name):
        self._name = name

    def cellname(self):
        return self._name

    def topological_dimension(self):
        return TDIM[self._name]

    def num_sub_entities(self, d):
        return len(basix.topology(getattr(basix.CellType, self._name))[d])

    def sub_entity_types(self, d):
        assert d == TDIM[self._name] - 1
        return (Cell(FACET[self._name]),)

    def __eq__(self, o):
        return isinstance(o, Cell) and o._name == self._name

    def __hash__(self):
        return hash(self._name)


class AbstractFiniteElement:
    @property
    def reference_value_size(self):
        return int(np.prod(self.reference_value_shape)) if self.reference_value_shape else 1


class AbstractPullback:
    def __init__(self, *a):
        pass

    def __eq__(self, o):
        return type(self) is type(o)

    def __hash__(self):
        return hash(type(self))


class IdentityPullback(AbstractPullback):
    pass


class MixedPullback(AbstractPullback):
    pass


class SymmetricPullback(AbstractPullback):
    pass


class UndefinedPullback(AbstractPullback):
    pass


class GeometricQuantity:
    def __init__(self, domain):
        self.domain = domain


class Jacobian(GeometricQuantity):
    pass


class Domain:
    def __init__(self, cell):
        self._cell = cell

    def ufl_cell(self):
        return self._cell


class QuadratureRule:
    """As in FFCx: the id comes from the points alone."""

    def __init__(self, points, weights, tensor_factors=None):
        self.points = np.ascontiguousarray(points)
        self.weights = weights
        self.tensor_factors = tensor_factors
        self.has_tensor_factors = tensor_factors is not None
        self._hash = None

    def __hash__(self):
        if self._hash is None:
            self.hash_obj = hashlib.sha1(self.points)
            self._hash = int(self.hash_obj.hexdigest(), 32)
        return self._hash

    def __eq__(self, o):
        return np.allclose(self.points, o.points) and np.allclose(self.weights, o.weights)

    def id(self):
        return self.hash_obj.hexdigest()[-3:]


ModifiedTerminalElement = collections.namedtuple("ModifiedTerminalElement", "element averaged local_derivatives fc")
CodeBlocks = collections.namedtuple("CodeBlocks", "file_pre integrals forms expressions file_post")


class IntegralType(enum.Enum):
    cell = 0
    exterior_facet = 1
    interior_facet = 2
    vertex = 3
    ridge = 4


class Constant:
    """dolfinx.fem.Constant"""

    def __init__(self, domain, c):
        self.domain, self.value = domain, np.asarray(c)


# what the stand-in of FFCx answers next (set by the harness)
NEXT = {}


def install(extra=None):
    F = fs._FILL
    old_ufl, old_fem, old_cpp = F["ufl"], F["dolfinx.fem"], F["dolfinx.cpp.fem"]

    def ufl(m):
        old_ufl(m)
        m.Cell, m.AbstractCell = Cell, AbstractCell
        m.identity_pullback = IdentityPullback()
        for n in ("l2_piola", "contravariant_piola", "covariant_piola", "double_contravariant_piola", "double_covariant_piola"):
            setattr(m, n, type(n, (AbstractPullback,), {})())

    def ufl_cell(m):
        m.Cell, m.AbstractCell = Cell, AbstractCell

    def ufl_fe(m):
        m.AbstractFiniteElement = AbstractFiniteElement

    def ufl_pb(m):
        m.AbstractPullback, m.IdentityPullback, m.MixedPullback = AbstractPullback, IdentityPullback, MixedPullback
        m.SymmetricPullback, m.UndefinedPullback = SymmetricPullback, UndefinedPullback

    def ufl_geometry(m):
        m.GeometricQuantity, m.Jacobian = GeometricQuantity, Jacobian

    def ufl_domain(m):
        m.extract_unique_domain = lambda t: t.domain

    def tables(m):
        m.ModifiedTerminalElement = ModifiedTerminalElement
        m.get_modified_terminal_element = lambda mt: mt.mte

    def rutils(m):
        m.QuadratureRule = QuadratureRule
        m.create_quadrature_points_and_weights = lambda *a: NEXT["quadrature"](*a)

    def codegen(m):
        m.CodeBlocks = CodeBlocks
        m.generate_code = lambda ir, options: NEXT["code"](ir, options)

    def analysis(m):
        m.analyze_ufl_objects = lambda ufl_objects, scalar_type: NEXT["analyze"](ufl_objects, scalar_type)

    def representation(m):
        m.compute_ir = lambda analysis, object_names, prefix, options, visualise: NEXT["compute"](analysis, object_names, prefix, options, visualise)

    def formatting(m):
        m.format_code = lambda code: NEXT["format"](code)

    def fem(m):
        old_fem(m)
        m.IntegralType = IntegralType
        m.Constant = Constant

    def cpp_fem(m):
        old_cpp(m)
        m._IntegralType = m.IntegralType = IntegralType
        m.pack_coefficients = lambda form: NEXT["coefficients"](form)

    F.update({"ufl": ufl, "ufl.cell": ufl_cell, "ufl.finiteelement": ufl_fe, "ufl.pullback": ufl_pb, "ufl.geometry": ufl_geometry,
              "ufl.domain": ufl_domain, "ffcx.ir.elementtables": tables, "ffcx.ir.representationutils": rutils,
              "ffcx.codegeneration.codegeneration": codegen, "ffcx.analysis": analysis, "ffcx.ir.representation": representation,
              "ffcx.formatting": formatting, "dolfinx.fem": fem, "dolfinx.cpp.fem": cpp_fem})
    if extra:
        extra()
    fs._SUBMODULES["ufl"] |= {"sobolevspace", "finiteelement", "pullback"}
    return fs.install(real_basix_ufl=True)
