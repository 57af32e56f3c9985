# Plays tabulation calls (JSON lines) on the shim; argv: library, elements, seed.
import ctypes, json, sys
import numpy as np
import basix
lib = ctypes.CDLL(sys.argv[1])
ELEMS = [json.loads(x) for x in open(sys.argv[2])]
rng = np.random.default_rng(int(sys.argv[3]))
NT = {"f64": np.float64, "f32": np.float32}
TD = {1: 1, 2: 2, 3: 3, 4: 2, 5: 3}
for t in NT:
    f = getattr(lib, f"qugar_tabulate_{t}"); f.restype = ctypes.c_int
    f.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_void_p, ctypes.c_int, ctypes.c_int, ctypes.c_void_p, ctypes.c_long]
    f = getattr(lib, f"qugar_tabulate_shape_{t}"); f.restype = ctypes.c_int
    f.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_void_p]
cache = {}
def ref(t, i):
    if (t, i) not in cache:
        e = ELEMS[i]
        cache[t, i] = basix.create_element(basix.ElementFamily(e["family"]), basix.CellType(e["cell"]), e["degree"],
            basix.LagrangeVariant(e["lv"]), basix.DPCVariant(e["dv"]), bool(e["disc"]), dtype=NT[t])
    return cache[t, i]
for line in sys.stdin:
    o = json.loads(line)
    t = o["t"]
    i = o["elem"] - 1
    e = ELEMS[i]
    td = TD[e["cell"]]
    h0 = getattr(lib, f"qugar_register_element_{t}")(e["family"], e["cell"], e["degree"], e["lv"], e["dv"], e["disc"])
    size = getattr(lib, f"qugar_registry_size_{t}")()
    h = {"good": h0, "negative": -1, "end": size, "far": size + 1000000}[o["handle"]]
    gdim = td if o["gd"] == "right" else (td % 3) + 1
    x = rng.random((o["npts"], td))
    if e["cell"] in (2, 3):
        x = x / td
    xx = np.zeros((o["npts"], max(gdim, td)))
    xx[:, :td] = x
    x = np.ascontiguousarray(x, dtype=NT[t])
    xb = x if gdim == td else np.ascontiguousarray(xx.ravel()[: o["npts"] * gdim], dtype=NT[t])
    s = np.full(6, -77, dtype=np.int64)
    sst = int(getattr(lib, f"qugar_tabulate_shape_{t}")(h, o["nd"], o["npts"], s.ctypes.data))
    b = np.full(max(o["capacity"], 0) + 4096, 12345.5, dtype=NT[t])
    tst = int(getattr(lib, f"qugar_tabulate_{t}")(h, o["nd"], xb.ctypes.data, o["npts"], gdim, b.ctypes.data, o["capacity"]))
    w = ref(t, i).tabulate(o["nd"], x).ravel()
    tol = 1e-9 if t == "f64" else 5e-3
    n = w.size
    r = dict(o, elem=e, gdim=gdim, sstat=sst, shape=[int(v) for v in s[:4]], tstat=tst, crash=False,
             match=bool(tst == 0 and np.allclose(b[:n], w, rtol=tol, atol=tol * max(1.0, float(np.abs(w).max(initial=0.0))))),
             beyond=int((b[n:] != 12345.5).sum() + (s[4:] != -77).sum()), touched=int((b != 12345.5).sum()))
    print(json.dumps(r), flush=True)
