import sys
sys.path.insert(0, "stubs")
import ffcx_mini  # noqa: E402
ffcx_mini.install()
import formcases  # noqa: E402
from pycheck import ask  # noqa: E402
from vc import SPEC, main  # noqa: E402


def run(c):
    c.tlc("FacetFramesLaws", workers=4)
    c.tlc("PackLaws", workers=8, cfg_text=(SPEC / "PackLaws.cfg").read_text().replace("MaxEnts = 2", f"MaxEnts = {c.pick(2, 3)}"))
    recs, what = [], []
    for n, s in enumerate(formcases.skeletons(c, c.pick(420, 6000), c.seed * 3)):
        case, itg = formcases.make(c, s, f"p{n}", n)
        w = case.world
        packer = case.packer(itg)
        packed = ask(c, "packing the coefficients failed", {"skeleton": s, "spec": case.form.spec}, packer.pack_coefficients)
        if packed is None:
            continue
        packed = case.plain(packed)
        if sorted(packed) != sorted(case.domains):
            c.violation("coefficients of the wrong integrals are packed", {"spec": case.form.spec, "keys": list(packed)})
            continue
        for key in case.domains:
            r = formcases.pack_record(case, key, packed[key], itg)
            if r is None:
                c.violation("the quadratures of an integral are not those of its integrands", {"spec": case.form.spec, "integral": key})
                continue
            recs.append(r)
            what.append({"skeleton": s, "integral": key, "spec": case.form.spec})
    for b in c.judge("PackJudge", recs, cfg="Judge.cfg", chunk=300):
        c.violation("the packed coefficients of an integral are not as specified", {**what[b], "record": recs[b]})
    c.sample({k: recs[0][k] for k in ("cell", "type", "ents", "quads")})
    c.extra["packed_integrals"] = len(recs)
    c.assumptions.append("FFCx and DOLFINx are replaced by stand-ins; the unfitted domain is a stand-in answering with quadratures of small integers")


main("C05", run)
