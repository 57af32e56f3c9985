# Plays scratch-memory requests from several threads; argv: library.
import ctypes, json, sys, threading, queue
import numpy as np
lib = ctypes.CDLL(sys.argv[1])
C = {"f64": ctypes.c_double, "f32": ctypes.c_float}
SZ = {"f64": 8, "f32": 4}
for t in C:
    f = getattr(lib, f"qugar_get_scratch_{t}")
    f.restype = ctypes.c_void_p
    f.argtypes = [ctypes.c_long]
def worker(q, out):
    have = {}
    while True:
        o = q.get()
        if o is None:
            return
        r = dict(o)
        if o["op"] == "get":
            p = getattr(lib, f"qugar_get_scratch_{o['t']}")(o["n"])
            r["null"] = p is None
            r["kept"] = True
            if p is not None and not o["huge"]:
                a = np.ctypeslib.as_array(ctypes.cast(p, ctypes.POINTER(C[o["t"]])), (o["n"],))
                old = have.get(o["t"])
                if old is not None and old[0] == p:
                    k = min(o["n"], old[1])
                    r["kept"] = bool((a[:k] == old[2]).all())
                val = float(o["mark"])
                a[:] = val
                have[o["t"]] = (p, o["n"], val)
                r["addr"] = [p, p + o["n"] * SZ[o["t"]]]
        else:
            good = True
            for t, (p, n, val) in have.items():
                a = np.ctypeslib.as_array(ctypes.cast(p, ctypes.POINTER(C[t])), (n,))
                good &= bool((a == val).all())
            r["intact"] = good
        out.put(r)
for line in sys.stdin:
    script = json.loads(line)
    qs, ths = {}, []
    out = queue.Queue()
    for th in (1, 2, 3):
        qs[th] = queue.Queue()
        x = threading.Thread(target=worker, args=(qs[th], out)); x.start(); ths.append(x)
    log = []
    for k, o in enumerate(script):
        qs[o["th"]].put(dict(o, mark=k + 1))
        log.append(out.get())
    for q in qs.values():
        q.put(None)
    for x in ths:
        x.join()
    ends = sorted({a for r in log for a in r.get("addr", [])})
    rank = {a: i + 1 for i, a in enumerate(ends)}
    for r in log:
        if "addr" in r:
            r["lo"], r["hi"] = (rank[a] for a in r.pop("addr"))
        r["n"] = str(r.get("n", ""))
    print(json.dumps(log), flush=True)
