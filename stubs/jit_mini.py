"""What qugar.dolfinx.jit uses of FFCx, CFFI and DOLFINx: a cache of modules following ffcx.codegeneration.jit 0.10, a
"compiler" that writes its input down, and points at which the process stops (`point`, set by the harness)."""
import functools
import hashlib
import json
import logging
import os
import types
from pathlib import Path

import fenics_stub as fs

point = lambda where: "go"                                          # noqa: E731
FFIS = []                                                           # the compilers used
LINKS = []                                                          # (LDSHARED, ...) seen by the linker


class Mine(Exception):
    """an error of the stand-ins"""


def stop(where):
    if point(where) == "fail":
        raise Mine(where)


def load(cache_dir, module_name, names):
    m = json.loads((Path(cache_dir) / (module_name + ".lib")).read_text())
    lib = types.SimpleNamespace(**{n: f"{module_name}/{n}" for n in names})
    mod = types.SimpleNamespace(name=module_name, content=m, lib=lib, ffi=types.SimpleNamespace())
    for n in names:
        if n not in m["decl"]:
            raise AttributeError(n)
    return [getattr(lib, n) for n in names], mod


def get_cached_module(module_name, object_names, cache_dir, timeout):
    cache_dir = Path(cache_dir)
    c_filename = cache_dir.joinpath(module_name + ".c")
    ready_name = c_filename.with_suffix(".c.cached")
    cache_dir.mkdir(exist_ok=True, parents=True)
    try:
        with open(c_filename, "x"):
            pass
        return None, None
    except FileExistsError:
        for _ in range(timeout):
            point("wait")
            if os.path.exists(ready_name):
                return load(cache_dir, module_name, object_names)
        raise TimeoutError(module_name)


def load_objects(cache_dir, module_name, object_names):
    point("load")
    return load(cache_dir, module_name, object_names)


class FFI:
    def set_source(self, name, source, **kw):
        self.name, self.source, self.kw = name, source, kw

    def cdef(self, decl):
        self.decl = decl

    def compile(self, tmpdir=".", verbose=0, debug=None):
        FFIS.append(self)
        p = Path(tmpdir) / (self.name + ".lib")
        p.write_text('{"decl": "')
        LINKS.append(os.environ.get("LDSHARED"))
        print("a line of the compiler")
        logging.getLogger().warning("the linker says")
        if point("cc") == "fail":
            raise Mine("cc")
        p.write_text(json.dumps({"decl": self.decl, "code": self.source, "kw": {k: [str(x) for x in v] for k, v in self.kw.items()}, "debug": debug}))
        return str(p)


def options(o=None):
    r = {"scalar_type": "float64", "epsilon": 1e-14, "sum_factorization": False}
    r.update(o or {})
    return r


def signature(objs, tag):
    return hashlib.sha1(json.dumps([[getattr(o, "mark", "?") for o in objs], tag, "ffcx"]).encode()).hexdigest()


def decorator(f):
    @functools.wraps(f)
    def g(comm, *a, **k):
        return f(*a, **k)
    return g


CACHE = [None]


def install():
    F = fs._FILL

    def jit(m):
        m.UFC_FORM_DECL, m.UFC_HEADER_DECL, m.UFC_INTEGRAL_DECL = "form\n", "header {0}\n", "integral\n"
        m._compilation_signature = lambda args, debug: str(args) + str(debug)
        m._compute_option_signature = lambda o: str(sorted((k, str(v)) for k, v in o.items()))
        m._load_objects, m.get_cached_module = load_objects, get_cached_module
        m.logger, m.root_logger = logging.getLogger("ffcx"), logging.getLogger()

    def naming(m):
        m.compute_signature = signature
        m.form_name = lambda form, i, prefix: f"form_{hashlib.sha1(f'{form.mark} {i} {prefix}'.encode()).hexdigest()[:12]}"

    def opts(m):
        m.get_options = options

    def template(m):
        m.libraries = ["m"]

    def cg(m):
        m.get_include_path = lambda: "/include/ffcx"

    def djit(m):
        m.mpi_jit_decorator = decorator
        m.get_options = lambda o=None: {"cache_dir": CACHE[0], "cffi_debug": False, "cffi_extra_compile_args": ["-O2"], "cffi_verbose": False,
                                        "cffi_libraries": [], "timeout": 2} | (o or {})

    def cffi(m):
        m.FFI = FFI
    prev = F.get("ffcx.codegeneration")

    def cg2(m):
        if prev:
            prev(m)
        cg(m)
    F.update({"ffcx.codegeneration.jit": jit, "ffcx.naming": naming, "ffcx.options": opts, "ffcx.codegeneration.C.file_template": template,
              "ffcx.codegeneration": cg2, "dolfinx.jit": djit, "cffi": cffi})
