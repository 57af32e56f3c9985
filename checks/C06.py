import sys
sys.path.insert(0, "stubs")
import ffcx_mini  # noqa: E402
ffcx_mini.install()
import collections  # noqa: E402
import formcases  # noqa: E402
import shimlib  # noqa: E402
from pycheck import ask  # noqa: E402
from vc import main  # noqa: E402


def run(c):
    shim = shimlib.build(c)
    n = 0
    modes = collections.Counter()
    total = 0
    for rep in range(c.pick(1, 8)):
        cases = {}
        for s in formcases.skeletons(c, c.pick(150, 300), c.seed * 7 + rep, keep=lambda s: s["ents"] > 1):
            n += 1
            case, itg = formcases.make(c, s, f"d{n}", 1000 + n, max_terms=2)
            packed = ask(c, "packing the coefficients failed", {"skeleton": s, "spec": case.form.spec}, case.packer(itg).pack_coefficients)
            if packed is not None:
                cases[f"d{n}"] = (case, case.plain(packed))
        recs, _meta = formcases.assemble(c, shim, cases, what="an entity is not integrated by the rule its kind calls for")
        modes.update(r["mode"] for r in recs)
        total += len(recs)
    c.sample({k: recs[0][k] for k in ("mode", "R", "C", "A0", "A1")})
    c.extra["entities"] = dict(modes)
    c.assumptions.append("FFCx and DOLFINx are replaced by stand-ins; integer-valued elements, so that the sums are exact")


main("C06", run)
