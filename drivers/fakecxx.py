#!/usr/bin/python3 -SE
# Stand-in compiler: writes its output in two halves, the second one when told.
import os, re, sys, time
ctl = os.environ["FAKE_CTL"]
args = sys.argv[1:]
out = src = None
i = 0
while i < len(args):
    if args[i] == "-o":
        out = args[i + 1]; i += 2; continue
    if args[i].startswith("-o"):
        out = args[i][2:]
    elif args[i].endswith(".cpp"):
        src = args[i]
    i += 1
d = os.path.dirname(src)
ver = 0
for f in sorted(os.listdir(d)):
    if f.endswith((".py", ".cpp")):
        for m in re.findall(r"@ver (\d+)", open(os.path.join(d, f)).read()):
            ver = max(ver, int(m))
data = ("\x7fELF fake library @built %d " % ver) + "x" * 200
fh = open(out, "w")
fh.write(data); fh.flush()
me = os.path.join(ctl, "job.%d" % os.getpid())
with open(me + ".tmp", "w") as g:
    g.write("%d %d" % (os.getppid(), ver))
os.rename(me + ".tmp", me)
go = os.path.join(ctl, "go.%d" % os.getpid())
t0 = time.time()
while not os.path.exists(go):
    time.sleep(0.003)
    if time.time() - t0 > 120: sys.exit(9)
how = open(go).read()
if how == "ok":
    fh.write("@end"); fh.close(); rc = 0
elif how == "fail":
    fh.close(); rc = 1
else:
    fh.close(); os.unlink(out); rc = 1
os.rename(go, os.path.join(ctl, "end.%d" % os.getpid()))
sys.exit(rc)
