"""What qugar.dolfinx.petsc uses of PETSc and of dolfinx.fem.petsc: everything done to A, b and the solution is logged."""
import contextlib
import importlib

import fenics_stub as fs

LOG = []          # (what, ...) in the order of the calls


class _Opts:
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **k: None

    def __setitem__(self, k, v):
        pass


class Mat(_Opts):
    def zeroEntries(self):
        LOG.append(("zero", "A"))

    def assemble(self):
        LOG.append(("final", "A"))


class Vec(_Opts):
    @contextlib.contextmanager
    def localForm(self):
        class Loc:
            @staticmethod
            def set(v):
                LOG.append(("zero", "b") if v == 0 else ("set", v))
        yield Loc

    def ghostUpdate(self, addv=None, mode=None):
        LOG.append(("ghost", addv == "ADD" and mode == "REVERSE"))

    @property
    def array_w(self):
        return ("array of", self)


class Bc:
    """a Dirichlet boundary condition"""

    def __init__(self, n):
        self.n = n

    def set(self, b, x0=None, alpha=1):
        LOG.append(("bc", self.n, x0, alpha))


class Solver(_Opts):
    def create(self, comm):
        return self

    def solve(self, b, x):
        LOG.append(("solver",))


class Function:
    """the unknown of a problem"""

    class x:
        @staticmethod
        def scatter_forward():
            LOG.append(("scatter",))

    def __init__(self, space):
        self.function_space = space


def install():
    F = fs._FILL

    def petsc4py(m):
        m.PETSc = importlib.import_module("petsc4py.PETSc")

    def petsc(m):
        m.KSP, m.Options = Solver, _Opts
        m.ScalarType = float
        m.InsertMode = type("InsertMode", (), {"ADD": "ADD", "INSERT": "INSERT", "ADD_VALUES": "ADD", "INSERT_VALUES": "INSERT"})
        m.ScatterMode = type("ScatterMode", (), {"FORWARD": "FORWARD", "REVERSE": "REVERSE"})

    def fem_petsc(m):
        class LinearProblem:
            @property
            def u(self):
                return self._u

            @property
            def A(self):
                return self._A

            @property
            def b(self):
                return self._b

            @property
            def solver(self):
                return self._solver

        class NewtonSolverNonlinearProblem:
            pass
        m.LinearProblem, m.NewtonSolverNonlinearProblem = LinearProblem, NewtonSolverNonlinearProblem
        m.create_matrix = lambda a, *k: Mat()
        m.create_vector = lambda spaces, *k: Vec()

        def assemble_matrix(A, a, bcs=None, diag=1, constants=None, coeffs=None):
            LOG.append(("add", "A", a, coeffs, list(bcs or [])))

        def assemble_vector(b, L, constants=None, coeffs=None):
            LOG.append(("add", "b", L, coeffs, None))

        def apply_lifting(b, a, bcs=None, x0=None, alpha=1, constants=None, coeffs=None):
            LOG.append(("lift", a, coeffs, bcs, x0, alpha))

        def set_bc(b, bcs, x0=None, alpha=1):
            for bc in bcs:
                bc.set(b, x0, alpha)
        m.assemble_matrix, m.assemble_vector, m.apply_lifting, m.set_bc = assemble_matrix, assemble_vector, apply_lifting, set_bc

    def la_petsc(m):
        m.create_vector_wrap = lambda x: Vec()

    def forms(m):
        class Form:
            def __init__(self, form, ufcx_form=None, code=None, module=None):
                self._cpp_object, self._ufcx_form, self._code, self._module = form, ufcx_form, code, module
        m.Form = Form

    def function(m):
        m.Function = Function

    old_fem = F["dolfinx.fem"]

    def fem(m):
        old_fem(m)
        m.extract_function_spaces = lambda f, *a: []

    F.update({"petsc4py": petsc4py, "petsc4py.PETSc": petsc, "dolfinx.fem.petsc": fem_petsc, "dolfinx.la.petsc": la_petsc, "dolfinx.fem.forms": forms,
              "dolfinx.fem.function": function, "dolfinx.fem": fem})
    fs._SUBMODULES["dolfinx.fem"] |= {"function", "bcs"}
