import basix
import numpy as np
from vc import CheckError, main
import pycheck
from pycheck import jlist


def basix_order(dim, p):
    """Where basix itself puts the nodes (flat lexicographical index of each)."""
    cell = [basix.CellType.interval, basix.CellType.quadrilateral, basix.CellType.hexahedron][dim - 1]
    e = basix.create_element(basix.ElementFamily.P, cell, p, basix.LagrangeVariant.equispaced)
    ids = np.rint(np.asarray(e.points) * p).astype(int)
    assert np.allclose(ids / p, e.points)
    return [int(sum(x * (p + 1) ** k for k, x in enumerate(r))) for r in ids]


def run(c):
    import fenics_stub
    fenics_stub.install()
    import qugar.mesh.utils as u
    p1, p2, p3 = c.pick((12, 7, 4), (20, 12, 6))
    cases = c.tlc("EntityCases", workers=8, cfg_text="SPECIFICATION Spec\nINVARIANT Numbering\nCHECK_DEADLOCK FALSE\n"
                  f"CONSTANTS MaxP1 = {p1} MaxP2 = {p2} MaxP3 = {p3}\n").cases
    agree = 0
    for x in cases:
        if x["name"] == "DOLFINx_to_lexicg_nodes" and x["p"] <= 8:
            if basix_order(x["dim"], x["p"]) != x["ref"]:
                raise CheckError(f"the specified node numbering is not basix's: {x}")
            agree += 1
    obs, rep = [], []
    for x in cases:
        args = (x["dim"], x["p"]) if x["name"].endswith("nodes") else (x["dim"],)
        for again in (1, 2):    # asked twice: answers do not depend on earlier calls
            r = pycheck.ask(c, f"{x['name']}{args}", x, getattr(u, x["name"]), *args)
            if r is None:
                continue
            obs.append({"kind": "table", "name": x["name"], "dim": x["dim"], "p": x["p"], "dtype": str(r.dtype), "res": jlist(r)})
            r[...] = 0          # the caller owns the answer
    for dim in (1, 2, 3):
        a = pycheck.ask(c, "lexicg_to_VTK_faces", dim, u.lexicg_to_VTK_faces, dim)
        b = pycheck.ask(c, "VTK_to_lexicg_faces", dim, u.VTK_to_lexicg_faces, dim)
        if a is not None and b is not None:
            obs.append({"kind": "vtkfaces", "dim": dim, "there": jlist(a), "back": jlist(b)})
    for i in c.judge("EntityJudge", obs, cfg="Judge.cfg"):
        o = obs[i]
        c.violation(f"{o.get('name', 'VTK faces')} dim {o['dim']} p {o.get('p')}: {o.get('res', o)}", o)
    c.extra["basix_agreements"] = agree
    c.sample(obs[0])
    c.assumptions.append("basix's point ordering (equispaced Lagrange) is DOLFINx's node ordering")


main("C10", run)
