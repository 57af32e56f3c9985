"""A small UFL: expressions that can be evaluated, measures, integrals and forms.

Measures and forms follow ufl 2025.2 (tuples of subdomain ids are split when a measure multiplies an integrand, the
integrals of a form are sorted by type and id, ...).  Expressions are closures over an environment of values.
"""
import numbers
from collections import defaultdict
from itertools import chain

import numpy as np

import fenics_stub as fs


# ---------------------------------------------------------------- expressions
class Expr:
    """shape and eval(env) -> numpy array"""

    def __init__(self, shape, fn, parts=()):
        self.ufl_shape, self.eval, self.parts = tuple(shape), fn, tuple(parts)

    def ufl_domain(self):
        raise AttributeError("ufl_domain")

    def _bin(self, o, f):
        if not isinstance(o, (Expr, numbers.Number)):
            return NotImplemented
        o = as_ufl(o)
        return Expr(np.broadcast_shapes(self.ufl_shape, o.ufl_shape), lambda e: f(self.eval(e), o.eval(e)), (self, o))

    def __add__(self, o):
        return self._bin(o, np.add)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, np.subtract)

    def __neg__(self):
        return -1 * self

    def __mul__(self, o):
        if not isinstance(o, (Expr, numbers.Number)):
            return NotImplemented
        return mult(self, as_ufl(o))

    def __rmul__(self, o):
        if not isinstance(o, (Expr, numbers.Number)):
            return NotImplemented
        return mult(as_ufl(o), self)

    def __truediv__(self, o):
        o = as_ufl(o)
        assert o.ufl_shape == ()
        return Expr(self.ufl_shape, lambda e: self.eval(e) / o.eval(e), (self, o))

    def __rtruediv__(self, o):
        return as_ufl(o) / self

    def __pow__(self, p):
        p = as_ufl(p)
        return Expr((), lambda e: self.eval(e) ** p.eval(e), (self, p))

    def __abs__(self):
        return Expr(self.ufl_shape, lambda e: np.abs(self.eval(e)), (self,))

    def __getitem__(self, k):
        sh = np.empty(self.ufl_shape)[k].shape
        return Expr(sh, lambda e: self.eval(e)[k], (self,))

    def __len__(self):
        return self.ufl_shape[0]

    @property
    def T(self):
        return transpose(self)

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)


def mult(a, b):
    """as UFL's *: scalars, matrix-vector and matrix-matrix products"""
    ra, rb = len(a.ufl_shape), len(b.ufl_shape)
    if 0 in (ra, rb):
        return Expr(a.ufl_shape or b.ufl_shape, lambda e: a.eval(e) * b.eval(e), (a, b))
    if ra == 2 and rb in (1, 2):
        return dot(a, b)
    raise ValueError(f"Invalid ranks {ra} and {rb} in product.")


def as_ufl(x):
    if isinstance(x, Expr):
        return x
    v = float(x)
    return Expr((), lambda e: np.float64(v))


def as_vector(xs):
    xs = [as_ufl(x) for x in xs]
    return Expr((len(xs),), lambda e: np.array([x.eval(e) for x in xs]), xs)


def dot(a, b):
    a, b = as_ufl(a), as_ufl(b)
    sh = np.dot(np.empty(a.ufl_shape), np.empty(b.ufl_shape))
    return Expr(np.shape(sh), lambda e: np.dot(a.eval(e), b.eval(e)), (a, b))


def inner(a, b):
    a, b = as_ufl(a), as_ufl(b)
    if a.ufl_shape != b.ufl_shape:
        raise ValueError("Shapes do not match")
    return Expr((), lambda e: np.sum(a.eval(e) * np.conj(b.eval(e))), (a, b))


def sqrt(a):
    a = as_ufl(a)
    return Expr((), lambda e: np.sqrt(a.eval(e)), (a,))


def inv(a):
    a = as_ufl(a)
    if a.ufl_shape and (len(a.ufl_shape) != 2 or a.ufl_shape[0] != a.ufl_shape[1]):
        raise ValueError("Cannot take inverse of rectangular matrix with size.")
    return Expr(a.ufl_shape, lambda e: np.linalg.inv(a.eval(e)) if a.ufl_shape else 1 / a.eval(e), (a,))


def transpose(a):
    return Expr(a.ufl_shape[::-1], lambda e: a.eval(e).T, (a,))


def det(a):
    return Expr((), lambda e: np.linalg.det(a.eval(e)) if a.ufl_shape else a.eval(e), (a,))


def terminal(name, shape=()):
    return Expr(shape, lambda e: np.asarray(e[name], dtype=float))


def as_domain(d):
    return d.ufl_domain() if hasattr(d, "ufl_domain") else d


class GeometricQuantity(Expr):
    def __init__(self, domain):
        d = as_domain(domain)
        super().__init__(*self.at(d))
        self.domain = d


class Jacobian(GeometricQuantity):
    @staticmethod
    def at(d):
        return (d.gdim, d.tdim), lambda e: np.asarray(e[("J", id(d))], dtype=float)


class JacobianInverse(GeometricQuantity):
    @staticmethod
    def at(d):
        return (d.tdim, d.gdim), lambda e: np.linalg.pinv(np.asarray(e[("J", id(d))], dtype=float))


class Constant(Expr):
    """dolfinx.fem.Constant"""

    def __init__(self, domain, c):
        self.value = np.asarray(c)
        self.domain = as_domain(domain)
        super().__init__(self.value.shape, lambda e: np.asarray(e[("C", id(self.domain))], dtype=float))


# ---------------------------------------------------------------- measures, integrals, forms
NAMES = {"cell": "dx", "exterior_facet": "ds", "interior_facet": "dS"}
TYPES = {v: k for k, v in NAMES.items()}


def id_or_none(o):
    return None if o is None else o.ufl_id() if hasattr(o, "ufl_id") else id(o)


class Measure:
    def __init__(self, integral_type, domain=None, subdomain_id="everywhere", metadata=None, subdomain_data=None):
        self._integral_type = TYPES.get(integral_type, integral_type)
        assert self._integral_type in NAMES, integral_type
        self._domain = None if domain is None else as_domain(domain)
        if isinstance(subdomain_id, tuple):
            if not all(isinstance(d, numbers.Integral) or d in ("everywhere", "otherwise") for d in subdomain_id):
                raise ValueError("Invalid subdomain_id.")
        elif not (subdomain_id in ("everywhere", "otherwise") or isinstance(subdomain_id, numbers.Integral)):
            raise ValueError("Invalid subdomain_id.")
        self._subdomain_id = subdomain_id
        if metadata is not None and not isinstance(metadata, dict):
            raise ValueError("Invalid metadata.")
        self._metadata = {} if metadata is None else metadata
        self._subdomain_data = subdomain_data

    def integral_type(self):
        return self._integral_type

    def ufl_domain(self):
        return self._domain

    def subdomain_id(self):
        return self._subdomain_id

    def metadata(self):
        return self._metadata

    def subdomain_data(self):
        return self._subdomain_data

    def reconstruct(self, integral_type=None, subdomain_id=None, domain=None, metadata=None, subdomain_data=None):
        return Measure(self.integral_type() if integral_type is None else integral_type,
                       domain=self.ufl_domain() if domain is None else domain,
                       subdomain_id=self.subdomain_id() if subdomain_id is None else subdomain_id,
                       metadata=self.metadata() if metadata is None else metadata,
                       subdomain_data=self.subdomain_data() if subdomain_data is None else subdomain_data)

    def __call__(self, subdomain_id=None, metadata=None, domain=None, subdomain_data=None, degree=None, scheme=None):
        if all(a is None for a in (subdomain_id, metadata, domain, subdomain_data, degree, scheme)):
            return self.reconstruct(subdomain_id="everywhere")
        if subdomain_id is not None and (isinstance(subdomain_id, MiniDomain) or hasattr(subdomain_id, "ufl_domain")):
            if domain is not None:
                raise ValueError("Ambiguous: setting domain both as keyword argument and first argument.")
            subdomain_id, domain = "everywhere", subdomain_id
        if (degree, scheme) != (None, None):
            metadata = {} if metadata is None else metadata.copy()
            if degree is not None:
                metadata["quadrature_degree"] = degree
            if scheme is not None:
                metadata["quadrature_rule"] = scheme
        return self.reconstruct(subdomain_id=subdomain_id, domain=domain, metadata=metadata, subdomain_data=subdomain_data)

    def __add__(self, o):
        return MeasureSum(self, o) if isinstance(o, (Measure, MeasureSum)) else NotImplemented

    def __rmul__(self, integrand):
        if isinstance(integrand, (int, float)):
            integrand = as_ufl(integrand)
        if not isinstance(integrand, Expr):
            return NotImplemented
        if integrand.ufl_shape != ():
            raise ValueError("Can only integrate scalar expressions.")
        sid = self.subdomain_id()
        if isinstance(sid, tuple):
            return Form(list(chain(*((integrand * self.reconstruct(subdomain_id=d)).integrals() for d in sid))))
        return Form([Integral(integrand, self.integral_type(), self.ufl_domain(), sid, self.metadata(), self.subdomain_data())])

    def __str__(self):
        name = NAMES[self._integral_type]
        args = []
        if self._subdomain_id != "everywhere":
            args.append(f"subdomain_id={self._subdomain_id}")
        if self._domain is not None:
            args.append(f"domain={self._domain}")
        if self._metadata:
            args.append(f"metadata={self._metadata}")
        return f"{name}({', '.join(args)})"

    def __repr__(self):
        args = [repr(self._integral_type)]
        if self._subdomain_id != "everywhere":
            args.append(f"subdomain_id={self._subdomain_id!r}")
        if self._domain is not None:
            args.append(f"domain={self._domain!r}")
        if self._metadata:
            args.append(f"metadata={self._metadata!r}")
        if self._subdomain_data is not None:
            args.append(f"subdomain_data={self._subdomain_data!r}")
        return f"{type(self).__name__}({', '.join(args)})"

    def __hash__(self):
        md = tuple(sorted((k, id(v)) for k, v in list(self._metadata.items())))
        return hash((self._integral_type, self._subdomain_id, hash(self._domain), md, id_or_none(self._subdomain_data)))

    def __eq__(self, o):
        def sig(m):
            return sorted((k, str(v)) for k, v in m._metadata.items())
        return (isinstance(o, Measure) and self._integral_type == o._integral_type and self._subdomain_id == o._subdomain_id
                and self._domain == o._domain and id_or_none(self._subdomain_data) == id_or_none(o._subdomain_data) and sig(self) == sig(o))


class MeasureSum:
    def __init__(self, *ms):
        self._measures = ms

    def __rmul__(self, o):
        r = [o * m for m in self._measures]
        out = r[0]
        for x in r[1:]:
            out = out + x
        return out

    def __add__(self, o):
        if isinstance(o, Measure):
            return MeasureSum(*(*self._measures, o))
        return MeasureSum(*(self._measures + o._measures)) if isinstance(o, MeasureSum) else NotImplemented


class Integral:
    def __init__(self, integrand, integral_type, domain, subdomain_id, metadata, subdomain_data):
        if not isinstance(integrand, Expr):
            raise ValueError("Expecting integrand to be an Expr instance.")
        self._integrand, self._integral_type, self._ufl_domain = integrand, integral_type, domain
        self._subdomain_id, self._metadata, self._subdomain_data = subdomain_id, metadata, subdomain_data

    def reconstruct(self, integrand=None, integral_type=None, domain=None, subdomain_id=None, metadata=None, subdomain_data=None):
        return Integral(self._integrand if integrand is None else integrand, self._integral_type if integral_type is None else integral_type,
                        self._ufl_domain if domain is None else domain, self._subdomain_id if subdomain_id is None else subdomain_id,
                        self._metadata if metadata is None else metadata, self._subdomain_data if subdomain_data is None else subdomain_data)

    def integrand(self):
        return self._integrand

    def integral_type(self):
        return self._integral_type

    def ufl_domain(self):
        return self._ufl_domain

    def subdomain_id(self):
        return self._subdomain_id

    def metadata(self):
        return self._metadata

    def subdomain_data(self):
        return self._subdomain_data


def _sorted(integrals):
    d = defaultdict(lambda: defaultdict(lambda: defaultdict(list)))
    for i in integrals:
        d[i.ufl_domain()][i.integral_type()][i.subdomain_id()].append(i)

    def key(x):
        v = x if isinstance(x, numbers.Integral) else tuple(-1 if k == "otherwise" else k for k in x)
        return type(v).__name__, v
    return tuple(x for dom in d for it in sorted(d[dom]) for s in sorted(d[dom][it], key=key) for x in d[dom][it][s])


class Form:
    def __init__(self, integrals, arguments=(), coefficients=(), constants=()):
        if not all(isinstance(i, Integral) for i in integrals):
            raise ValueError("Expecting list of integrals.")
        self._integrals = _sorted(integrals)

    def integrals(self):
        return self._integrals

    def empty(self):
        return len(self._integrals) == 0

    def ufl_domains(self):
        return tuple(dict.fromkeys(i.ufl_domain() for i in self._integrals))

    def ufl_domain(self):
        (d,) = self.ufl_domains()
        return d

    def integrals_by_type(self, t):
        return tuple(i for i in self._integrals if i.integral_type() == t)

    def subdomain_data(self):
        r = {d: {} for d in self.ufl_domains()}
        for i in self._integrals:
            r[i.ufl_domain()].setdefault(i.integral_type(), []).append(i.subdomain_data())
        return r

    def _collect(self, kind):
        out = {}

        def walk(e):
            if getattr(e, "kind", None) == kind:
                out.setdefault(id(e), e)
            for p in e.parts:
                walk(p)
        for i in self._integrals:
            walk(i.integrand())
        return tuple(sorted(out.values(), key=lambda e: e.number))

    def arguments(self):
        return self._collect("argument")

    def coefficients(self):
        return self._collect("coefficient")

    def constants(self):
        return self._collect("constant")

    def __add__(self, o):
        if isinstance(o, Form):
            return Form(list(chain(self.integrals(), o.integrals())))
        if o == 0:
            return self
        return NotImplemented

    __radd__ = __add__

    def __neg__(self):
        return -1 * self

    def __rmul__(self, s):
        return Form([i.reconstruct(integrand=as_ufl(s) * i.integrand()) for i in self._integrals])


class MiniDomain:
    """the UFL mesh"""

    def __init__(self, tdim, gdim, cargo=None):
        self.tdim, self.gdim, self._cargo = tdim, gdim, cargo

    def ufl_cargo(self):
        return self._cargo

    def topological_dimension(self):
        return self.tdim

    def geometric_dimension(self):
        return self.gdim


def install():
    """called through ffcx_mini.install(extra=...)"""
    import importlib
    F = fs._FILL
    old = F["ufl"]

    def ufl(m):
        old(m)
        for n in ("Form", "Measure", "Integral", "sqrt", "inner", "dot", "inv", "transpose", "det", "Jacobian", "as_ufl", "as_vector",
                  "JacobianInverse"):
            setattr(m, n, globals()[n])
        m.dx = Measure("cell")
        m.AbstractDomain = MiniDomain
        m.algorithms = importlib.import_module("ufl.algorithms")

    def measure(m):
        m.Measure, m.integral_type_to_measure_name, m.MeasureSum = Measure, NAMES, MeasureSum

    def geometry(m):
        m.GeometricQuantity, m.Jacobian, m.JacobianInverse = GeometricQuantity, Jacobian, JacobianInverse

    def operators(m):
        m.inv, m.transpose, m.sqrt, m.inner, m.dot, m.det = inv, transpose, sqrt, inner, dot, det

    def protocols(m):
        m.id_or_none = id_or_none

    def fem(m, prev=F["dolfinx.fem"]):
        prev(m)
        m.Constant = Constant

    def forms(m, prev=F.get("dolfinx.fem.forms")):
        if prev:
            prev(m)
        else:
            class Form_:
                def __init__(self, form, ufcx_form=None, code=None, module=None):
                    self._cpp_object, self._ufcx_form, self._code, self._module = form, ufcx_form, code, module
            m.Form = Form_
        IT = importlib.import_module("dolfinx.fem").IntegralType
        m._ufl_to_dolfinx_domain = {t: getattr(IT, t) for t in NAMES}

        def get_integration_domains(integral_type, subdomain, subdomain_ids):
            if subdomain is None:
                return []
            if isinstance(subdomain, list):
                return [(s[0], np.array(s[1])) for s in subdomain]
            return [(i, np.array(subdomain.find(i), dtype=np.int32)) for i in subdomain_ids]
        m.get_integration_domains = get_integration_domains

    def domain(m):
        m.extract_unique_domain = lambda t: t.domain
        m.as_domain = as_domain
    F.update({"ufl": ufl, "ufl.measure": measure, "ufl.geometry": geometry, "ufl.operators": operators, "ufl.protocols": protocols,
              "dolfinx.fem": fem, "dolfinx.fem.forms": forms, "ufl.domain": domain, "ufl.integral": lambda m: setattr(m, "Integral", Integral),
              "ufl.form": lambda m: setattr(m, "Form", Form)})
    fs._SUBMODULES["ufl"] |= {"form"}
