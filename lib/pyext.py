"""The Python extension qugar.cpp, built from /repo's wrappers with the stand-ins for nanobind and Algoim (ASan + UBSan)."""
import os
import re
import subprocess
import sys
import sysconfig
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path
import numpy
from vc import REPO, VERIF, CheckError
import cxx


def build(c) -> Path:
    """the folder of the module cpp"""
    out = c.tmp / "pyext"
    (out / "obj").mkdir(parents=True)
    (out / "include" / "qugar").mkdir(parents=True)
    head = REPO / "cpp" / "include" / "qugar" / "version.hpp.in"
    text = re.sub(r"\{ @qugar_VERSION_\w+@ \}", "{ 0 }", head.read_text()).replace("@qugar_VERSION@", "0.0.0").replace("@GIT_COMMIT_HASH@", "none")
    (out / "include" / "qugar" / "version.hpp").write_text(text)
    flags = [*cxx.CXX, "-fPIC", "-w", f"-I{out}/include", f"-I{sysconfig.get_paths()['include']}", f"-I{numpy.get_include()}"]
    srcs = [*sorted((REPO / "python" / "nanobind_wrappers").glob("*.cpp")), VERIF / "standin" / "nanobind" / "nanobind.cpp",
            VERIF / "standin" / "nanobind" / "no_bezier_reparam.cpp",
            *sorted(p for p in (REPO / "cpp" / "qugar").glob("*.cpp") if p.stem != "impl_reparam_bezier")]

    def one(a):
        k, src = a
        obj = out / "obj" / f"{k}.o"
        p = subprocess.run([*flags, "-c", str(src), "-o", str(obj)], capture_output=True, text=True, timeout=800)
        if p.returncode:
            raise CheckError(f"cannot compile {src}\n{p.stderr[:3000]}")
        return obj
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, enumerate(srcs)))
    p = subprocess.run([*flags, "-shared", *map(str, objs), "-o", str(out / "cpp.so")], capture_output=True, text=True, timeout=600)
    if p.returncode:
        raise CheckError(f"cannot link the extension\n{p.stderr[:3000]}")
    return out


def run(folder: Path, cases: list[str], plot=False, **k) -> list[dict]:
    """answers of drivers/py/pyapi.py"""
    # libstdc++ as well, or the sanitizer does not find the function which throws
    lib = " ".join(subprocess.run(["g++", f"-print-file-name={n}"], capture_output=True, text=True).stdout.strip() for n in ("libasan.so", "libstdc++.so.6"))
    env = {**os.environ, "LD_PRELOAD": lib, "ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=1",
           "WITH_PLOT": "1" if plot else ""}
    return cxx.run(Path(sys.executable), cases, argv=[str(VERIF / "drivers" / "py" / "pyapi.py"), str(folder)], env=env, **k)
