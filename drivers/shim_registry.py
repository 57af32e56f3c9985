# Replays registry scripts (JSON lines on stdin: list of operations) against a
# freshly loaded shim; argv: library path, keys file.  One process per call.
import ctypes, json, sys
import numpy as np
import basix

lib = ctypes.CDLL(sys.argv[1])
KEYS = json.load(open(sys.argv[2]))
CT = {"f64": ctypes.c_double, "f32": ctypes.c_float}
NT = {"f64": np.float64, "f32": np.float32}
TD = {0: 0, 1: 1, 2: 2, 3: 3, 4: 2, 5: 3, 6: 3, 7: 3}
for t in CT:
    getattr(lib, f"qugar_register_element_{t}").restype = ctypes.c_int
    f = getattr(lib, f"qugar_tabulate_{t}"); f.restype = ctypes.c_int
    f.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_void_p, ctypes.c_int, ctypes.c_int, ctypes.c_void_p, ctypes.c_long]
    f = getattr(lib, f"qugar_tabulate_shape_{t}"); f.restype = ctypes.c_int
    f.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_void_p]
    getattr(lib, f"qugar_registry_size_{t}").restype = ctypes.c_int
lib.qugar_shim_reset.restype = None

ND = 2
def pts(td, t):
    return np.ascontiguousarray([[0.11, 0.23, 0.31][:td], [0.4, 0.07, 0.19][:td], [0.2, 0.3, 0.13][:td]], dtype=NT[t])

REF = {}
for name, k in KEYS.items():
    for t in CT:
        try:
            e = basix.create_element(basix.ElementFamily(k[0]), basix.CellType(k[1]), k[2],
                                     basix.LagrangeVariant(k[3]), basix.DPCVariant(k[4]), bool(k[5]), dtype=NT[t])
            REF[t, name] = e.tabulate(ND, pts(TD[k[1]], t))
        except Exception:
            REF[t, name] = None

def run(script):
    out = []
    mirror = {"f64": [], "f32": []}
    for o in script:
        r = dict(o)
        if o["op"] == "register":
            k = KEYS[o["k"]]
            r["good"] = REF[o["t"], o["k"]] is not None
            r["ans"] = int(getattr(lib, f"qugar_register_element_{o['t']}")(*k))
            if r["good"] and o["k"] not in mirror[o["t"]]:
                mirror[o["t"]].append(o["k"])
        elif o["op"] in ("tabulate", "shape"):
            t, h = o["t"], o["h"]
            m = mirror[t]
            td = TD[KEYS[m[h]][1]] if 0 <= h < len(m) else 2
            x = pts(td, t)
            if o["op"] == "shape":
                s = np.full(6, -77, dtype=np.int64)
                r["ans"] = int(getattr(lib, f"qugar_tabulate_shape_{t}")(h, ND, len(x), s.ctypes.data))
                r["touched"] = bool((s != -77).any())
                r["same"] = [n for n in KEYS if REF[t, n] is not None and tuple(s[:4]) == REF[t, n].shape
                             and (s[4:] == -77).all()]
            else:
                b = np.full(1 << 16, 12345.5, dtype=NT[t])
                r["ans"] = int(getattr(lib, f"qugar_tabulate_{t}")(h, ND, x.ctypes.data, len(x), td, b.ctypes.data, b.size))
                r["touched"] = bool((b != 12345.5).any())
                r["same"] = []
                for n in KEYS:
                    w = REF[t, n]
                    if w is None or TD[KEYS[n][1]] != td:
                        continue
                    tol = 1e-10 if t == "f64" else 2e-3
                    if np.allclose(b[:w.size], w.ravel(), rtol=tol, atol=tol * max(1., float(np.nanmax(np.abs(w)))), equal_nan=True) and (b[w.size:] == 12345.5).all():
                        r["same"].append(n)
        elif o["op"] == "size":
            r["ans"] = int(getattr(lib, f"qugar_registry_size_{o['t']}")())
        elif o["op"] == "reset":
            lib.qugar_shim_reset()
            mirror = {"f64": [], "f32": []}
            r["ans"] = 0
        out.append(r)
    return out

for line in sys.stdin:
    lib.qugar_shim_reset()
    print(json.dumps(run(json.loads(line))), flush=True)
