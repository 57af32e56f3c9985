"""Imports qugar in the FEniCSx world given as JSON in argv[1]; prints what is offered."""
import importlib
import json
import sys
from pathlib import Path

w = json.loads(sys.argv[1])
sys.path.insert(0, str(Path(__file__).resolve().parent.parent / "stubs"))
import fenics_stub as fs  # noqa: E402

for p, vs in w["world"].items():
    if p == "basix":
        import basix
        if vs is None:
            sys.modules["basix"] = None
        else:
            basix.__version__ = vs
    elif vs is None:
        sys.modules[p] = None
    else:
        fs.VERSIONS[p] = vs
if not w["petsc"]:
    sys.modules["petsc4py"] = None
if w["pyvista"]:
    import types
    pv = fs.AutoModule("pyvista")
    pv.__spec__ = importlib.machinery.ModuleSpec("pyvista", None)
    sys.modules["pyvista"] = pv
    fs.ROOTS |= {"pyvista", "vtk", "vtkmodules"}
if w["world"]["basix"] is None:
    import builtins
    for k in list(sys.modules):
        if k.startswith("basix"):
            sys.modules[k] = None
    fs_install = fs.install

    def install():
        sys.meta_path.insert(0, fs._Finder())
        sys.path.insert(0, str(fs.REPO / "python"))
    install()
else:
    fs.install()
import qugar  # noqa: E402

out = {"parts": sorted(qugar.__all__), "has": bool(qugar.has_FEniCSx), "tried": []}
for name, free in (("mesh", True), ("quad", True), ("mesh.utils", True), ("mesh.mesh", False), ("mesh.tp_mesh", False),
                   ("mesh.unfitted_domain", False), ("dolfinx", False), ("reparam", False)):
    try:
        importlib.import_module("qugar." + name)
        ok = True
    except (ImportError, ValueError):
        ok = False
    out["tried"].append({"name": name, "free": free, "ok": ok})
if out["has"]:
    import qugar.dolfinx
    out["solvers"] = hasattr(qugar.dolfinx, "LinearProblem") and "LinearProblem" in qugar.dolfinx.__all__
    import dolfinx.fem
    import dolfinx.fem.assemble as am

    class M:
        _cpp_object = "form"
    out["calls"] = [fn(M, *a) for fn in (am.assemble_scalar, dolfinx.fem.assemble_scalar)
                    for a in ((None, None), ("K", None), (None, "C"), ("K", "C"))]
print("OUT" + json.dumps(out))
