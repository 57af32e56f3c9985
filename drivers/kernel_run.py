"""Runs compiled kernels: argv[1] = shim library; one JSON line per case on stdin:
{"so":..., "npz":..., "calls":[{"fn":, "w": name, "off": cell offset, "c":, "x":, "lf":, "qp":, "n":, "A0":, "poison": bool}]}
prints [[A re/im...], ...]"""
import ctypes
import json
import sys

import numpy as np

shim = ctypes.CDLL(sys.argv[1], mode=ctypes.RTLD_GLOBAL)
for s, t in (("f64", ctypes.c_double), ("f32", ctypes.c_float)):
    g = getattr(shim, f"qugar_get_scratch_{s}")
    g.restype, g.argtypes = ctypes.POINTER(t), [ctypes.c_long]


def poison():
    for s in ("f64", "f32"):
        p = getattr(shim, f"qugar_get_scratch_{s}")(20000)
        np.ctypeslib.as_array(p, (20000,))[:] = np.nan


for line in sys.stdin:
    case = json.loads(line)
    z = np.load(case["npz"])
    lib = ctypes.CDLL(case["so"])
    res = []
    guarded = {}
    for k in z.files:
        a = z[k]
        # a guard band of NaN behind the packed array: reads past its end are seen
        buf = np.full(a.size + 256, np.nan, dtype=a.dtype)
        buf[:a.size] = a.ravel()
        guarded[k] = buf
    for call in case["calls"]:
        w = guarded[call["w"]]
        dt = w.dtype
        real = np.dtype(np.float32 if dt.itemsize == 4 or dt == np.complex64 else np.float64)
        cx = lambda v: np.array([complex(*p) if dt.kind == "c" else p[0] for p in v], dtype=dt)  # noqa: E731
        pad = lambda a: np.concatenate([a, np.full(64, np.nan, a.dtype)])  # noqa: E731
        A = pad(cx(call["A0"]))
        c = pad(cx(call["c"]))
        x = pad(np.array(call["x"], dtype=real))
        lf = np.array(call["lf"] + [1 << 20], dtype=np.intc)
        qp = np.array(call["qp"] + [255], dtype=np.uint8)
        if call.get("poison", True):
            poison()
        fn = getattr(lib, call["fn"])
        fn.restype = None
        fn(*(ctypes.c_void_p(v) for v in (A.ctypes.data, w.ctypes.data + call["off"] * dt.itemsize, c.ctypes.data, x.ctypes.data,
                                           lf.ctypes.data if call["lf"] else None, qp.ctypes.data if call["qp"] else None, None)))
        n = len(call["A0"])
        touched = bool(np.any(~np.isnan(A[n:])))
        res.append([[float(np.real(v)), float(np.imag(v))] for v in A[:n]] + ([["touched", 0]] if touched else []))
    print(json.dumps(res), flush=True)
