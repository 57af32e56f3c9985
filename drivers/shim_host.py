# One process using the shim cache: host.py <python/qugar copy>; commands on
# stdin ("call <thread>"), one JSON event per line on stdout.
import json, os, re, sys, threading, types
root = sys.argv[1]
for name, path in (("qugar", root), ("qugar.dolfinx", root + "/dolfinx")):
    m = types.ModuleType(name); m.__path__ = [path]; sys.modules[name] = m
sys.modules["qugar"].dolfinx = sys.modules["qugar.dolfinx"]
import qugar.dolfinx._shim as shim
W = threading.Lock()
def say(**kw):
    with W:
        os.write(1, (json.dumps(kw) + "\n").encode())
def look(path):
    try:
        s = open(path).read()
    except FileNotFoundError:
        return "none", 0
    m = re.search(r"@built (\d+)", s)
    return ("full" if s.endswith("@end") else "partial"), (int(m.group(1)) if m else 0)
def call(t):
    try:
        d, name = shim.ensure_built()
    except Exception as e:
        say(ev="raise", t=t, err=repr(e)[:200]); return
    k, v = look(os.path.join(str(d), "lib%s.so" % name))
    say(ev="ret", t=t, kind=k, ver=v)
# keep the compiler's chatter off our pipe
say(ev="ready")
for line in sys.stdin:
    w = line.split()
    if w[0] == "call":
        threading.Thread(target=call, args=(w[1],), daemon=True).start()
    elif w[0] == "quit":
        break
os._exit(0)
