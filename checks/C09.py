import sys
sys.path.insert(0, "stubs")
import ffcx_mini  # noqa: E402
ffcx_mini.install()
import random  # noqa: E402
import numpy as np  # noqa: E402
import formcases  # noqa: E402
import kernelworld as kw  # noqa: E402
from pycheck import ask  # noqa: E402
from vc import main  # noqa: E402

KEEP = ("cell", "type", "mixed", "ratio", "cols", "cstd", "V", "I", "quads")


def run(c):
    c.tlc("FacetFramesLaws", workers=4)
    pairs = {}
    for x in c.tlc("FramePairs", workers=1, cfg_text="SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
                   "CONSTANT Wanted = {\"triangle\", \"quadrilateral\", \"tetrahedron\", \"hexahedron\"}\n").cases:
        pairs.setdefault(x["cell"], []).append(x)
    rng = random.Random(c.seed)
    n, recs, meta, done = 0, [], [], 0
    for rep in range(c.pick(1, 4)):
        for cell in sorted(pairs):
            some = sorted(pairs[cell], key=str)
            rng.shuffle(some)
            if cell == "hexahedron" and not c.thorough:
                some = some[:3600]
            size = 40
            for kind in ("interior", "mixed"):
                if kind == "mixed":
                    some = some[:c.pick(480, len(some))]
                chunks = [some[k:k + size] for k in range(0, len(some), size)]
                sk = formcases.skeletons(c, len(chunks), c.seed * 29 + n, keep=lambda s: s["cell"] == cell and s["pts"] == 3 and len(s["shape"]) == 1
                                         and s["shape"][0] == ["interior_facet" if kind == "interior" else "exterior_facet", 1] and s["mixed"] == (kind == "mixed"))
                for s, chunk in zip(sk, chunks):
                    n += 1
                    case, itg = formcases.make(c, {**s, "st": ["cut"], "ents": 2 * len(chunk) - 2}, f"f{n}", 7000 + n, world={"lo": -2, "hi": 3})
                    w = case.world
                    rows = []
                    for j, x in enumerate(chunk):
                        a, b = (2 * j, 2 * j + 1) if rng.random() < 0.5 else (2 * j + 1, 2 * j)
                        w.perms[a, x["f0"]], w.perms[b, x["f1"]] = x["p0"], x["p1"]
                        rows.append([[a, x["f0"]], [b, x["f1"]]] if kind == "interior" else [a, x["f0"]])
                    for key in case.domains:
                        case.domains[key] = np.array(rows, dtype=np.int32)
                    case.new_standard()
                    packer = case.packer(itg)
                    packed = ask(c, "packing the coefficients failed", {"pairs": chunk[:3], "spec": case.form.spec}, packer.pack_coefficients)
                    if packed is None:
                        continue
                    for key in case.domains:
                        r = formcases.pack_record(case, key, case.plain(packed)[key], itg)
                        if r is None:
                            c.violation("the quadratures of an integral are not those of its integrands", {"spec": case.form.spec})
                            continue
                        recs.append({k: r[k] for k in KEEP} | {"ents": [{"lf": e["lf"], "q": e["q"], "g0": x["g0"], "g1": x["g1"]} for e, x in zip(r["ents"], chunk)]})
                        meta.append(chunk)
                    done += len(chunk)
    for b in c.judge("FrameJudge", recs, cfg="Judge.cfg", chunk=12):
        c.violation("the packed points of the sides of a facet are not in the same place", {"cell": recs[b]["cell"], "type": recs[b]["type"], "pairs": meta[b],
                                                                                          "ents": recs[b]["ents"][:5]})
    c.extra["facet_pairs"] = done
    c.extra["facet_pairs_enumerated"] = {k: len(v) for k, v in pairs.items()}
    c.sample(meta[0][0])
    c.assumptions.append("permutation numbers follow FFCx's convention (rotations, then reflection; the lowest vertex is the origin of the global frame)")


main("C09", run)
