"""A small FFCx: random forms -> generated C code, IR and UFL data, as FFCx 0.10 hands them to qugar.

A `Form` holds what the form means (elements, coefficients, constants, integrals with their terms); `Form.emit()`
writes the tabulate_tensor code the way FFCx does (table pruning and sharing, piecewise hoisting, table accesses,
permutations, coefficient layouts).  `Form.compile()` passes it through the real qugar.dolfinx.codegeneration and
gcc; `Form.pack()` runs the real coefficient packer; the records let TLC evaluate the meaning of the form.
"""
import subprocess
import types
from concurrent.futures import ThreadPoolExecutor

import basix
import basix.ufl as bu
import numpy as np

import ffcx_mini

TDIM = ffcx_mini.TDIM
FACET = ffcx_mini.FACET
REAL = {"f32": ("float", np.float32), "f64": ("double", np.float64)}
CPLX = {"f32": np.complex64, "f64": np.complex128}


class Reject(Exception):
    """The random draw is outside what is claimed (coincidental tables, too large numbers...)."""


# ---------------------------------------------------------------- elements
def make_element(d, cell):
    """d: ["P", deg, opts] | ["V", d, shape] | ["S", d] symmetric | ["M", [d...]] | [family, deg, opts]"""
    k = d[0]
    if k == "V":
        return bu.blocked_element(make_element(d[1], cell), shape=tuple(d[2]))
    if k == "S":
        n = TDIM[cell]
        return bu.blocked_element(make_element(d[1], cell), shape=(n, n), symmetry=True)
    if k == "M":
        return bu.mixed_element([make_element(x, cell) for x in d[1]])
    if k == "custom":
        return custom_p1()
    opts = d[2] if len(d) > 2 else {}
    kw = {}
    if "order" in opts:
        kw["dof_ordering"] = opts["order"]
    if "lv" in opts:
        kw["lagrange_variant"] = getattr(basix.LagrangeVariant, opts["lv"])
    if "dv" in opts:
        kw["dpc_variant"] = getattr(basix.DPCVariant, opts["dv"])
    if opts.get("disc"):
        kw["discontinuous"] = True
    return bu.element(k, cell, d[1], **kw)


def custom_p1():
    """P1 on triangles, built as a custom element"""
    z, m = np.zeros((0, 2)), np.zeros((0, 1, 0, 1))
    x = [[np.array([p]) for p in ([0., 0.], [1., 0.], [0., 1.])], [z, z, z], [z], []]
    M = [[np.ones((1, 1, 1, 1))] * 3, [m] * 3, [m], []]
    return bu.custom_element(basix.CellType.triangle, [], np.eye(3), x, M, 0, basix.MapType.identity, basix.SobolevSpace.H1, False, 1, 1)


def comp(e, fc):
    ce, off, stride = e.get_component_element(fc)
    return ce, off, stride


def tabulate(e, fc, der, pts):
    ce, off, stride = comp(e, fc)
    pts = np.asarray(pts, dtype=np.float64).reshape(-1, TDIM[e.cell_type.name])
    if pts.shape[0] == 0:
        return np.zeros((0, ndofs(e, fc)))
    der = tuple(der) if der else (0,) * TDIM[e.cell_type.name]
    return np.asarray(ce.tabulate(sum(der), pts)[basix.index(*der)])


def ndofs(e, fc):
    t = e.cell_type.name
    return tabulate(e, fc, (), np.zeros((1, TDIM[t]))).shape[1]


def is_integer(e):
    t = TDIM[e.cell_type.name]
    pts = np.array([[2, 1, 3], [-1, 2, 1], [1, 3, 2]], dtype=float)[:, :t]
    for fc in range(e.reference_value_size):
        ce = comp(e, fc)[0]
        v = np.asarray(ce.tabulate(1, pts))
        if not np.allclose(v, np.rint(v), atol=1e-9):
            return False
    return True


# ---------------------------------------------------------------- facets
def facet_map(cell, f, y):
    ct = getattr(basix.CellType, cell)
    g, top = basix.geometry(ct), basix.topology(ct)[TDIM[cell] - 1][f]
    y = np.asarray(y, dtype=float)
    o = g[top[0]]
    r = np.tile(o, (y.shape[0], 1))
    for a in range(TDIM[cell] - 1):
        r = r + y[:, a:a + 1] * (g[top[a + 1]] - o)
    return r


def permute(fcell, p, y):
    """FFCx: rotate p // 2 times, then reflect p % 2 times."""
    y = np.array(y, dtype=float)
    if fcell == "interval":
        return 1 - y if p % 2 else y
    for _ in range(p // 2):
        y = np.stack([y[:, 1], (1 - y[:, 0]) if fcell == "quadrilateral" else (1 - y[:, 0] - y[:, 1])], axis=1)
    return y[:, ::-1].copy() if p % 2 else y


def n_perms(fcell):
    return {"interval": 2, "triangle": 6, "quadrilateral": 8}[fcell]


def inv_permute(fcell, p, x):
    for q in range(n_perms(fcell)):
        t = np.array([[0, 0], [1, 0], [0, 1]], dtype=float)[:, :TDIM[fcell]]
        if np.allclose(permute(fcell, q, permute(fcell, p, t)), t):
            return permute(fcell, q, x)
    raise AssertionError


def n_facets(cell):
    return len(basix.topology(getattr(basix.CellType, cell))[TDIM[cell] - 1])


# ---------------------------------------------------------------- forms
class Table:
    """One table as FFCx computes it: [perms][entities][points][dofs]."""

    def __init__(self, form, group, rule, elem, fc, der):
        self.elem, self.fc, self.der = elem, fc, tuple(der)
        self.codim = TDIM[form.cell] - TDIM[elem.cell_type.name]
        cell, fcell = form.cell, FACET[form.cell]
        itype = group["type"]
        self.permutes = itype == "interior_facet" or (group["mixed"] and self.codim == 0)

        def values(pts):
            if itype == "cell" or self.codim:
                a = tabulate(elem, fc, der, pts)[None, None]
            else:
                perms = range(n_perms(fcell)) if self.permutes else [0]
                a = np.array([[tabulate(elem, fc, der, facet_map(cell, f, permute(fcell, p, pts)))
                               for f in range(n_facets(cell))] for p in perms])
            a[np.abs(a) < 1e-9] = 0.0
            return a

        dim = TDIM[cell] - (itype != "cell")
        gen = np.array([[0.31, 0.17, 0.23], [0.12, 0.41, 0.07], [0.05, 0.22, 0.36], [1.7, 2.3, 0.9]])[:, :dim]
        self.array = values(np.asarray(rule["pts"], dtype=float))
        self.generic = values(gen)
        self.ttype = self.classify(self.array)
        gtype = self.classify(self.generic)
        one = len(rule["pts"]) == 1
        ok = self.ttype == gtype or (one and {self.ttype, gtype} in ({"piecewise", "varying"}, {"fixed", "uniform"}))
        if not ok or self.ttype == "quadrature":
            raise Reject(f"coincidental table type {self.ttype} {gtype}")
        self.const = gtype in ("piecewise", "fixed")
        a = self.array
        if self.ttype in ("piecewise", "fixed"):
            a = a[:, :, :1]
        if self.ttype in ("uniform", "fixed"):
            a = a[:, :1]
        self.permuted = not all(np.allclose(a[0], x, atol=1e-9) for x in a)
        gp = not all(np.allclose(self.generic[0], x, atol=1e-9) for x in self.generic)
        if self.permuted != gp and not one:
            raise Reject("coincidental permutation")
        if one and gp and not self.permuted and not rule.get("mid"):
            # a single point that is a fixed point of the permutations (or a table that is constant in one point)
            raise Reject("single point invariant under permutations")
        self.array = a if self.permuted else a[:1]
        self.name = None

    @staticmethod
    def classify(a):
        if np.allclose(a, 0, atol=1e-9):
            return "zeros"
        if np.allclose(a, 1, atol=1e-9):
            return "ones"
        if a.shape[2] == a.shape[3] and all(np.allclose(np.eye(a.shape[2]), a[0, i], atol=1e-9) for i in range(a.shape[1])):
            return "quadrature"
        pw = all(np.allclose(a[0, :, 0], a[0, :, i], atol=1e-9) for i in range(a.shape[2]))
        un = all(np.allclose(a[0, 0], a[0, i], atol=1e-9) for i in range(a.shape[1]))
        return "fixed" if pw and un else "piecewise" if pw else "uniform" if un else "varying"

    def same(self, o):
        return self.array.shape == o.array.shape and np.allclose(self.array, o.array, atol=1e-9)

    def same_function(self, o):
        return self.generic.shape == o.generic.shape and np.allclose(self.generic, o.generic, atol=1e-9)


class _NS(types.SimpleNamespace):
    __hash__ = object.__hash__


class Coefficient(_NS):
    def ufl_function_space(self):
        return self.space


class Form:
    """spec: cell, real, cplx, cdeg, test, trial, coeffs, consts, normals, rules, groups (see random_form)."""

    def __init__(self, spec, tag):
        self.spec, self.tag = spec, tag
        self.cell, self.real, self.cplx = spec["cell"], spec["real"], spec["cplx"]
        self.tdim = TDIM[self.cell]
        self.rtype, self.npr = REAL[self.real]
        self.stype = self.rtype + (" _Complex" if self.cplx else "")
        self.npt = CPLX[self.real] if self.cplx else self.npr
        self.coord = make_element(["V", ["P", spec["cdeg"]], [self.tdim]], self.cell)
        self.nk = self.coord.sub_elements[0].dim
        argcell = FACET[self.cell] if spec.get("mixed") else self.cell
        self.test = make_element(spec["test"], argcell) if spec["test"] else None
        self.trial = make_element(spec["trial"], argcell) if spec["trial"] else None
        self.coeffs = [make_element(d, argcell if spec.get("mixed") and cm else self.cell)
                       for d, cm in zip(spec["coeffs"], spec.get("coeffs_mixed", [0] * len(spec["coeffs"])))]
        self.elements = []
        for e in [self.coord, self.test, self.trial, *self.coeffs]:
            if e is not None and e not in self.elements:
                self.elements.append(e)
        self.const_off = [int(x) for x in np.cumsum([0] + spec["consts"][:-1])] if spec["consts"] else []
        self.rules = [dict(r) for r in spec["rules"]]
        for r in self.rules:
            q = ffcx_mini.QuadratureRule(np.asarray(r["pts"], dtype=float), np.asarray(r["wts"], dtype=float))
            hash(q)
            r["obj"], r["id"] = q, q.id()
        ids = [r["id"] for r in self.rules]
        if len(set(ids)) != len(ids):
            raise Reject("rule ids clash")
        self.domain = ffcx_mini.Domain(ffcx_mini.Cell(self.cell))
        self.groups = []
        for gi, g in enumerate(spec["groups"]):
            g = dict(g)
            g["mixed"] = bool(spec.get("mixed"))
            g["name"] = f"{tag}x{gi}"
            self.groups.append(g)
        for g in self.groups:
            self._build(g)

    # -- layout ------------------------------------------------------------
    def coeff_offsets(self, g):
        width = 2 if g["type"] == "interior_facet" else 1
        offs, o = [], 0
        for e in self.coeffs:
            offs.append(o)
            o += width * e.dim
        return offs

    def cstride(self):
        return sum(e.dim for e in self.coeffs)

    def sides(self, g):
        return 2 if g["type"] == "interior_facet" else 1

    def dims(self, g):
        s = self.sides(g)
        return (s * self.test.dim if self.test else 1), (s * self.trial.dim if self.trial else 1)

    # -- code --------------------------------------------------------------
    def _build(self, g):
        tables, types_, nodes, unique = [], {}, {}, {}
        g["by"] = {}
        ones = {}
        for r in sorted({i["rule"] for i in g["integrands"]}, key=lambda r: g["order"].index(r)):
            rule = self.rules[r]
            nodes[r] = {}
            for t in [t for i in g["integrands"] if i["rule"] == r for t in i["terms"]]:
                for f in self.terminals(t):
                    key = (r, f["e"], f["fc"], tuple(f["der"]))
                    if key not in g["by"]:
                        e = self.elements[f["e"]]
                        tb = Table(self, g, rule, e, f["fc"], f["der"])
                        tb.rule = r
                        name = f"FE{f['e']}_C{f['fc']}"
                        if any(f["der"]):
                            name += "_D" + "".join(map(str, f["der"]))
                        if g["type"] != "cell" and not tb.codim:
                            name += "_F"
                        name += f"_Q{rule['id']}"
                        tb.name = name
                        g["by"][key] = tb
                        if tb.ttype in ("zeros", "ones"):
                            ones[name] = tb
                        else:
                            for o in tables:
                                if tb.same(o):
                                    if not tb.same_function(o) or (tb.rule != o.rule and not (tb.const and o.const)):
                                        raise Reject("coincidental sharing")
                                    tb.name = o.name
                                    break
                            else:
                                tables.append(tb)
                                types_[name] = tb.ttype
                    tb = g["by"][key]
                    if tb.ttype == "zeros":
                        continue
                    term = ffcx_mini.Jacobian(self.domain) if f["k"] == "x" else _NS()
                    mte = ffcx_mini.ModifiedTerminalElement(self.elements[f["e"]], None, tuple(f["der"]) or (0,) * (self.tdim - tb.codim), f["fc"])
                    nodes[r][len(nodes[r])] = {"tr": _NS(name=tb.name), "mt": _NS(terminal=term, mte=mte)}
            nodes[r][len(nodes[r])] = {"expression": None}
            nodes[r][len(nodes[r])] = {"tr": None, "mt": _NS(terminal=_NS(), mte=None)}
        g["tables"], g["types"], g["nodes"] = tables, types_, nodes
        if not any(t for t in tables):
            raise Reject("no tables")
        g["code"] = self._code(g)

    def terminals(self, t):
        r = [f for f in t["f"] if f["k"] in ("w", "x")]
        return r + [t[a] for a in ("test", "trial") if t.get(a)]

    def access(self, g, tb, f, q, dof):
        if tb.permutes and tb.permuted:
            p = f"quadrature_permutation[{f['s']}]"
        else:
            p = "0"
        uniform = tb.ttype in ("uniform", "fixed") or tb.array.shape[1] == 1
        e = "0" if uniform else f"entity_local_index[{f['s']}]"
        i = "0" if tb.ttype in ("piecewise", "fixed") else q
        return f"{tb.name}[{p}][{e}][{i}][{dof}]"

    def _code(self, g):
        R, C = self.dims(g)
        S = self.stype
        out = [f"// Code for integral integral_{g['name']}_{self.cell}\n\n",
               f"void tabulate_tensor_integral_{g['name']}_{self.cell}({S}* restrict A,\n"
               f"                                    const {S}* restrict w,\n"
               f"                                    const {S}* restrict c,\n"
               f"                                    const {self.rtype}* restrict coordinate_dofs,\n"
               "                                    const int* restrict entity_local_index,\n"
               "                                    const uint8_t* restrict quadrature_permutation,\n"
               "                                    void* custom_data)\n{\n"]
        # nested in the order FFCx writes them
        out.append("// Quadrature rules\n")
        rr = g["order"]
        for r in rr:
            rule = self.rules[r]
            out.append(f"static const {self.rtype} weights_{rule['id']}[{len(rule['wts'])}] = "
                       "{" + ", ".join(repr(float(x)) for x in rule["wts"]) + "};\n")
        used = set(self._used_tables(g))
        if used:
            out.append("// Precomputed values of basis functions and precomputations\n"
                       "// FE* dimensions: [permutation][entities][points][dofs]\n")
        for tb in sorted((t for t in g["tables"] if t.name in used), key=lambda t: t.name):
            a = tb.array
            dims = "".join(f"[{n}]" for n in a.shape)

            def brace(x):
                if x.ndim == 1:
                    return "{" + ", ".join(repr(float(v)) for v in x) + "}"
                return "{" + ",\n  ".join(brace(v) for v in x) + "}"
            out.append(f"static const {self.rtype} {tb.name}{dims} = {brace(a)};\n")
        if any(f["k"] == "g" for i in g["integrands"] for t in i["terms"] for f in t["f"]):
            nf = n_facets(self.cell)
            rows = ", ".join("{" + ", ".join(str(float(geom(f, k))) for k in range(self.tdim)) + "}" for f in range(nf))
            out.append(f"static const {self.rtype} {self.cell}_reference_normals[{nf}][{self.tdim}] = {{{rows}}};\n")
        pre, loops = [], []
        for r in rr:
            p, body = self._rule_code(g, r)
            pre += p
            loops.append((r, body))
        out += pre
        for r, body in loops:
            out.append(f"for (int iq = 0; iq < {len(self.rules[r]['wts'])}; ++iq)\n{{\n{''.join(body)}}}\n")
        out.append("}\n\n\n")
        out.append(f"ufcx_integral integral_{g['name']}_{self.cell} =\n{{\n  .enabled_coefficients = NULL,\n"
                   f"  .tabulate_tensor = tabulate_tensor_integral_{g['name']}_{self.cell},\n"
                   f"  .needs_facet_permutations = 0,\n}};\n\n// End of code for integral\n")
        return "".join(out)

    def _used_tables(self, g):
        for (r, e, fc, der), tb in g["by"].items():
            if tb.ttype not in ("zeros", "ones"):
                yield tb.name

    def _rule_code(self, g, r):
        """(hoisted lines, loop body lines) of one quadrature rule"""
        rule = self.rules[r]
        rid, S = rule["id"], self.stype
        one = len(rule["wts"]) == 1
        pre, body, done = [], [], {}
        fws, blocks = [], []
        style = g.get("style", 0)
        n = 0
        for t in [t for i in g["integrands"] if i["rule"] == r for t in i["terms"]]:
            tb = {id(f): g["by"][(r, f["e"], f["fc"], tuple(f["der"]))] for f in self.terminals(t)}
            if any(x.ttype == "zeros" for x in tb.values()):
                continue
            pw, vy = [], []        # factors that are hoisted / per point
            for f in t["f"]:
                if f["k"] == "c":
                    pw.append(f"c[{self.const_off[f['i']] + f['j']}]")
                elif f["k"] == "g":
                    pw.append(f"{self.cell}_reference_normals[entity_local_index[{f['s']}]][{f['j']}]")
                else:
                    T = tb[id(f)]
                    const = T.ttype in ("piecewise", "fixed", "ones") or one
                    key = (f["k"], f.get("i"), f["e"], f["fc"], tuple(f["der"]), f["s"], f.get("a"))
                    var = done.get(key)
                    if var is None:
                        _ce, off, stride = comp(self.elements[f["e"]], f["fc"])
                        if f["k"] == "w":
                            src, o = "w", self.coeff_offsets(g)[f["i"]] + f["s"] * self.coeffs[f["i"]].dim + off
                        else:
                            src, o, stride = "coordinate_dofs", f["s"] * 3 * self.nk + f["a"], 3
                        nd = T.array.shape[3]
                        if T.ttype == "ones" and nd == 1:
                            var = f"{src}[{o}]"
                        else:
                            var = f"{'w%d' % f['i'] if f['k'] == 'w' else 'J' if any(f['der']) else 'x'}_d{len(done)}_{rid}"
                            idx = f"{o} + (ic) * {stride}" if o else f"(ic) * {stride}"
                            fe = "" if T.ttype == "ones" else " * " + self.access(g, T, f, "iq", "ic")
                            typ = S if f["k"] == "w" else self.rtype
                            dst = pre if const else body
                            if const and one and T.ttype not in ("piecewise", "fixed", "ones"):
                                raise AssertionError
                            dst.append("// ------------------------ \n// Section: " + ("Coefficient" if f["k"] == "w" else "Jacobian")
                                       + f"\n// Inputs: {src}, {T.name}\n// Outputs: {var}\n"
                                       f"{typ} {var} = 0.0;\n{{\n  for (int ic = 0; ic < {nd}; ++ic)\n  {{\n"
                                       f"    {var} += {src}[{idx}]{fe};\n  }}\n}}\n// ------------------------ \n")
                        done[key] = var
                    (pw if const else vy).append(var)
            sc = str(float(t["scale"]))
            if style == 0 or not pw:
                expr = " * ".join([*pw, *vy, sc])
            else:
                sp = f"sp_{rid}_{n}"
                pre.append(f"{S} {sp} = {sc} * {pw[0]};\n" if len(pw) == 1 else f"{S} {sp} = ({pw[0]} * {' * '.join(pw[1:])})*{sc};\n"
                           if style == 1 else f"{S} {sp} = {sc} / ((({S}) 1.0) / 1.0) * " + " *".join(pw) + ";\n")
                expr = " * ".join([sp, *vy])
            if style == 2 and vy:
                body.append(f"{S} sv_{rid}_{n} = {expr};\n")
                expr = f"sv_{rid}_{n}"
            fws.append(f"{S} fw{n} = {expr} * weights_{rid}[iq];\n" if style != 1 else f"{S} fw{n} = weights_{rid}[iq] * ({expr});\n")
            blocks.append((n, t, tb))
            n += 1
        if not blocks:
            raise Reject("every term vanishes")
        body += fws
        R, C = self.dims(g)
        for n, t, tb in blocks:
            def arg(a, ind):
                f = t.get(a)
                if not f:
                    return None
                e = self.elements[f["e"]]
                _ce, off, stride = comp(e, f["fc"])
                T = tb[id(f)]
                nd = T.array.shape[3]
                o = f["s"] * e.dim + off
                pos = f"({ind}) * {stride} + {o}" if stride > 1 else f"({ind}) + {o}" if o else f"({ind})"
                return nd, pos, None if T.ttype == "ones" else self.access(g, T, f, "iq", ind)
            ti, tj = arg("test", "i"), arg("trial", "j")
            if ti is None:
                body.append(f"A[0] += fw{n};\n")
                continue
            ni, pi, ai = ti
            fi = f" * {ai}" if ai else ""
            if tj is None:
                body.append(f"{{\n  for (int i = 0; i < {ni}; ++i)\n  {{\n    A[{pi}] += fw{n}{fi};\n  }}\n}}\n")
                continue
            nj, pj, aj = tj
            fj = f" * {aj}" if aj else ""
            if style == 1:
                body.append(f"{S} temp_{rid}_{n}[{nj}] = {{0}};\nfor (int j = 0; j < {nj}; ++j)\n{{\n  temp_{rid}_{n}[j] = fw{n}{fj};\n}}\n"
                            f"for (int j = 0; j < {nj}; ++j)\n{{\n  for (int i = 0; i < {ni}; ++i)\n  {{\n"
                            f"    A[{C} * ({pi}) + ({pj})] += temp_{rid}_{n}[j]{fi};\n  }}\n}}\n")
            else:
                body.append(f"{{\n  for (int i = 0; i < {ni}; ++i)\n  {{\n    for (int j = 0; j < {nj}; ++j)\n    {{\n"
                            f"      A[{C} * ({pi}) + ({pj})] += fw{n}{fi}{fj};\n    }}\n  }}\n}}\n")
        return pre, body

    # -- what FFCx hands over ----------------------------------------------
    def ffcx_data(self):
        ct = getattr(basix.CellType, self.cell)
        names, ids = {"cell": [], "exterior_facet": [], "interior_facet": []}, {"cell": [], "exterior_facet": [], "interior_facet": []}
        pairs = []
        for g in self.groups:
            for i in g["ids"]:
                pairs.append((g["type"], i, f"integral_{g['name']}"))
        for ty, i, nm in sorted(pairs, key=lambda p: p[1]):
            names[ty].append(nm)
            ids[ty].append(i)
        integrals, blocks, idata = [], [], []
        for g in self.groups:
            coeffs = {Coefficient(space=_NS(element=_NS(space_dimension=e.dim))): o
                      for e, o in zip(self.coeffs, self.coeff_offsets(g))}
            from qugar.dolfinx.boundary import ParamNormal
            consts = {}
            for k, o in enumerate(self.const_off):
                key = ParamNormal.__new__(ParamNormal) if k in self.spec["normals"] else _NS()
                consts[HashKey(key) if not isinstance(key, ParamNormal) else key] = o
            integrand = {(ct, self.rules[r]["obj"]): {"factorization": _NS(nodes=g["nodes"][r])} for r in g["order"]}
            integrals.append(_NS(expression=_NS(
                name=f"integral_{g['name']}", integrand=integrand, coefficient_offsets=coeffs, original_constant_offsets=consts,
                entity_type="cell" if g["type"] == "cell" else "facet", integral_type=g["type"],
                unique_table_types={ct: dict(g["types"])})))
            blocks.append(("// header", g["code"]))
            itgs = []
            for it in g["integrands"]:
                rule = self.rules[it["rule"]]
                md = {"quadrature_degree": it["deg"], "quadrature_rule": rule["scheme"]}
                if rule["scheme"] == "custom":
                    md |= {"quadrature_points": np.asarray(rule["pts"], dtype=float), "quadrature_weights": np.asarray(rule["wts"], dtype=float)}
                if it["unf"]:
                    md["custom_unfitted_boundary"] = True
                itgs.append(Integral(md, g["type"], self.domain))
            idata.append(_NS(integrals=itgs))
        ir = _NS(forms=[_NS(integral_names=names, subdomain_ids=ids)], integrals=integrals)
        ufl_data = _NS(form_data=[_NS(integral_data=idata, argument_elements=[e for e in (self.test, self.trial) if e is not None])])
        return ufl_data, ir, blocks

    def quadrature(self, itype, cell, degree, scheme, elements, sumf):
        name = FACET[self.cell] if itype != "cell" else self.cell
        for r in self.rules:
            if r["scheme"] == scheme and [itype, degree] in r["for"]:
                return {name: np.asarray(r["pts"], dtype=float)}, {name: np.asarray(r["wts"], dtype=float)}, {name: None}
        raise AssertionError((itype, degree, scheme))

    def generate(self):
        """the real compiler and code generator; (new code text, [IntegralData])"""
        import ffcx.codegeneration.codegeneration  # noqa: F401
        from qugar.dolfinx.compiler import compile_ufl_objects
        ufl_data, ir, blocks = self.ffcx_data()
        header = "// header\n#pragma once\n#include <ufcx.h>\n\n#ifdef __cplusplus\nextern \"C\" {\n#endif\n"
        ffcx_mini.NEXT["quadrature"] = self.quadrature
        options = {"sum_factorization": False, "scalar_type": np.dtype(self.npt).name}
        objects, names, prefix = [self], {id(self): "form_" + self.tag}, "lib_" + self.tag

        def analyze(ufl_objects, scalar_type):
            assert list(ufl_objects) == objects and scalar_type == options["scalar_type"], "other objects are analysed"
            return ufl_data

        def compute(analysis, object_names, prefix_, options_, visualise):
            assert analysis is ufl_data and object_names == names and prefix_ == prefix, "another representation is computed"
            assert dict(options_) == options and visualise is False, "the representation is computed with other options"
            return ir

        def code(ir_, options_):
            assert ir_ is ir and dict(options_) == options, "code of another representation is generated"
            return ffcx_mini.CodeBlocks([("", header)], list(blocks), [("", "")], [], [("", "")])

        made = []

        def formatted(code_):
            made.append(code_)
            return "declarations", "implementation"
        ffcx_mini.NEXT.update(code=code, analyze=analyze, compute=compute, format=formatted)
        decl, impl, itg = compile_ufl_objects(objects, options, names, prefix)
        assert (decl, impl) == ("declarations", "implementation") and len(made) == 1, "the formatted code is not the one returned"
        cb = made[0]
        text = cb.file_pre[0][1].replace("#pragma once\n", "").replace('#ifdef __cplusplus\nextern "C" {\n#endif\n', "")
        text += "\n".join(i[1] for i in cb.integrals)
        self.itg_data = itg
        self.new_code = text
        return text, itg


class HashKey:
    def __init__(self, o):
        self.o = o


class Integral:
    def __init__(self, md, itype, domain):
        self._md, self._type, self._domain = md, itype, domain

    def metadata(self):
        return self._md

    def integral_type(self):
        return self._type

    def ufl_domain(self):
        return self._domain


def geom(f, k):
    """made-up reference facet geometry"""
    return (f + 2 * k) % 3 - 1 or 2


UFCX_H = """#pragma once
#include <stdbool.h>
#include <stdint.h>
#define UFCX_VERSION 0.10
typedef struct ufcx_integral { const bool* enabled_coefficients; void* tabulate_tensor; bool needs_facet_permutations; } ufcx_integral;
"""


def compile_all(tmp, codes, jobs=8, opt="-O1"):
    """codes: {tag: text} -> ({tag: .so}, {tag: compiler message})"""
    tmp.mkdir(parents=True, exist_ok=True)
    (tmp / "ufcx.h").write_text(UFCX_H)

    def one(item):
        tag, text = item
        src, so = tmp / f"{tag}.c", tmp / f"{tag}.so"
        src.write_text(text)
        p = subprocess.run(["gcc", "-std=c17", opt, "-fPIC", "-shared", "-w", f"-I{tmp}", "-o", str(so), str(src)],
                           text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return tag, so if p.returncode == 0 else None, p.stdout
    good, bad = {}, {}
    with ThreadPoolExecutor(jobs) as ex:
        for tag, so, msg in ex.map(one, codes.items()):
            if so is None:
                bad[tag] = msg
            else:
                good[tag] = so
    return good, bad


# ---------------------------------------------------------------- the mesh and the unfitted domain of a case
class World:
    """Entities, facet permutations, statuses and custom quadratures; deterministic in its seed."""

    def __init__(self, cell, seed, n_cells=6, statuses=("cut", "full", "empty"), max_pts=3, lo=-1, hi=2, frac=None):
        self.cell, self.tdim, self.fcell = cell, TDIM[cell], FACET[cell]
        self.rng = np.random.default_rng(seed)
        self.seed, self.n_cells, self.max_pts, self.lo, self.hi = seed, n_cells, max_pts, lo, hi
        self.frac = frac
        self.nf = n_facets(cell)
        self.statuses = list(statuses)
        pick = lambda *sh: self.rng.integers(0, len(self.statuses), sh)  # noqa: E731
        self.cell_st, self.ext_st, self.int_st = pick(n_cells), pick(n_cells, self.nf), pick(n_cells, self.nf)
        self.perms = self.rng.integers(0, n_perms(self.fcell), (n_cells, self.nf)).astype(np.uint8)
        self.calls = []

    # DOLFINx mesh
    @property
    def topology(self):
        w = self

        class Topo:
            cell_type = _NS(name=w.cell)

            @staticmethod
            def create_entity_permutations():
                w.perm_ready = True

            @staticmethod
            def get_facet_permutations():
                return w.perms.reshape(-1) if getattr(w, "perm_ready", False) else np.zeros(w.perms.size, np.uint8)
        return Topo

    def status(self, itype, ent):
        """ent: cell or (cell, facet) of side 0"""
        if itype == "cell":
            return self.statuses[self.cell_st[ent]]
        return self.statuses[(self.ext_st if itype == "exterior_facet" else self.int_st)[tuple(ent)]]

    # unfitted domain
    def _cells(self, what):
        return np.array([i for i in range(self.n_cells) if self.status("cell", i) == what], dtype=np.int32)

    def get_cut_cells(self):
        return self._cells("cut")

    def get_empty_cells(self):
        return self._cells("empty")

    def _facets(self, what, ext):
        from qugar.mesh.mesh_facets import MeshFacets
        ty = "exterior_facet" if ext else "interior_facet"
        r = [(c, f) for c in range(self.n_cells) for f in range(self.nf) if self.status(ty, (c, f)) == what]
        a = np.array(r, dtype=np.int32).reshape(-1, 2)
        return MeshFacets(a[:, 0].copy(), a[:, 1].copy())

    def get_cut_facets(self, ext_integral=True):
        return self._facets("cut", ext_integral)

    def get_empty_facets(self, ext_integral=True):
        return self._facets("empty", ext_integral)

    def quad(self, kind, degree, ent):
        """(points, weights, normals) of one entity; kind: cell / unf / ext / int"""
        k = {"cell": 1, "unf": 2, "ext": 3, "int": 4}[kind]
        ent = [int(x) for x in (ent if isinstance(ent, (tuple, list, np.ndarray)) else [ent])]
        r = np.random.default_rng([self.seed & 0x7fffffff, k, degree, *ent])
        n = int(r.integers(0, self.max_pts + 1))
        d = self.tdim if kind in ("cell", "unf") else self.tdim - 1
        pts = r.integers(self.lo, self.hi + 1, (n, d)).astype(float)
        wts = r.choice([-2.0, -1.0, 1.0, 2.0, 3.0], n)
        nrm = r.integers(-2, 3, (n, self.tdim)).astype(float)
        return pts, wts, nrm

    def _collect(self, kind, degree, ents):
        self.calls.append([kind, int(degree), [[int(y) for y in np.atleast_1d(x)] for x in ents]])
        qs = [self.quad(kind, degree, e) for e in ents]
        n = np.array([q[0].shape[0] for q in qs], dtype=np.int32)
        d = self.tdim if kind in ("cell", "unf") else self.tdim - 1
        cat = lambda k, dd: np.concatenate([q[k] for q in qs]) if qs else np.zeros((0, dd))  # noqa: E731
        return n, cat(0, d).reshape(-1, d), (np.concatenate([q[1] for q in qs]) if qs else np.zeros(0)), cat(2, self.tdim).reshape(-1, self.tdim)

    def create_quad_custom_cells(self, degree, cells, tag=None):
        from qugar.quad import CustomQuad
        n, p, w, _ = self._collect("cell", degree, list(cells))
        return CustomQuad(cells, n, p, w)

    def create_quad_unf_boundaries(self, degree, cells, tag=None):
        from qugar.quad import CustomQuadUnfBoundary
        n, p, w, m = self._collect("unf", degree, list(cells))
        return CustomQuadUnfBoundary(cells, n, p, w, m)

    def create_quad_custom_facets(self, degree, facets, ext_integral, tag=None):
        from qugar.quad import CustomQuadFacet
        n, p, w, _ = self._collect("ext" if ext_integral else "int", degree,
                                   list(zip(np.atleast_1d(facets.cell_ids), np.atleast_1d(facets.local_facet_ids))))
        return CustomQuadFacet(facets, n, p, w)


def draw_domain(world, itype, rng, n=4, shuffle=True):
    """integration entities of one subdomain, as DOLFINx stores them"""
    if itype == "cell":
        a = rng.permutation(world.n_cells)[:n].astype(np.int32)
        return a if shuffle else np.sort(a)
    allf = rng.permutation(world.n_cells * world.nf)
    a = np.stack([allf // world.nf, allf % world.nf], axis=1).astype(np.int32)
    if itype == "exterior_facet":
        a = a[:n]
        return a if shuffle else a[np.lexsort((a[:, 1], a[:, 0]))]
    a = a[:2 * (a.shape[0] // 2)]
    return np.ascontiguousarray(a.reshape(-1, 2, 2)[:n])


def entity_of(itype, row):
    return int(row) if itype == "cell" else tuple(int(x) for x in (row if itype == "exterior_facet" else row[0]))


KIND = {"cell": "cell", "exterior_facet": "ext", "interior_facet": "int"}


class Case:
    """One form over one world: packed coefficients, kernel calls, records."""

    def __init__(self, form, world, seed, n_entities=4, shuffle=True):
        self.form, self.world = form, world
        self.rng = np.random.default_rng(seed)
        f = form
        self.const = self._values(sum(f.spec["consts"]))
        self.domains, self.std, self.pos = {}, {}, {}
        for ty in ("cell", "exterior_facet", "interior_facet"):
            pairs = sorted((i, gi) for gi, g in enumerate(f.groups) if g["type"] == ty for i in g["ids"])
            for pos, (i, gi) in enumerate(pairs):
                self.pos[(ty, pos)] = (gi, i)
                self.domains[(ty, pos)] = draw_domain(world, ty, self.rng, n_entities, shuffle)
        self.new_standard()
        self.x = {c: self.rng.integers(-2, 3, (f.nk, 3)).astype(f.npr) for c in range(world.n_cells)}

    def _values(self, *shape):
        f = self.form
        a = self.rng.integers(-2, 4, shape).astype(f.npt)
        if f.cplx:
            a = a + 1j * self.rng.integers(-2, 3, shape)
        return a.astype(f.npt)

    def new_standard(self):
        """fresh values of the coefficients of the form (what DOLFINx packs)"""
        n = self.form.cstride()
        self.std = {k: self._values(d.shape[0] * (2 if k[0] == "interior_facet" else 1), n) for k, d in self.domains.items()}

    # fake dolfinx form
    def dolfinx_form(self):
        import ffcx_mini as m
        case = self
        types_ = ("cell", "exterior_facet", "interior_facet", "vertex", "ridge")
        offs, ids = [0], []
        for ty in types_:
            mine = sorted((p, self.pos[(t, p)][1]) for (t, p) in self.pos if t == ty)
            ids += [i for _p, i in mine]
            offs.append(len(ids))
        cpp = _NS(mesh=self.world, domains=lambda ty, pos: case.domains[(ty.name, pos)])
        cpp.pack = lambda: {(m.IntegralType[t], p): a.copy() for (t, p), a in case.std.items()}
        m.NEXT["coefficients"] = lambda form: form.pack()
        return _NS(_cpp_object=cpp, _ufcx_form=_NS(form_integral_offsets=offs, form_integral_ids=ids))

    def packer(self, itg_data):
        from qugar.dolfinx.custom_coefficients import CustomCoeffsPacker
        return CustomCoeffsPacker(self.dolfinx_form(), self.world, itg_data)

    @staticmethod
    def plain(packed):
        return {(k[0].name, k[1]): v for k, v in packed.items()}

    # kernel calls
    def entity(self, key, e):
        """what DOLFINx passes for one entity: coordinate dofs, local facets, permutations"""
        ty, row = key[0], self.domains[key][e]
        w = self.world
        if ty == "cell":
            return self.x[int(row)].reshape(-1), [], []
        if ty == "exterior_facet":
            c, f = map(int, row)
            return self.x[c].reshape(-1), [f], [int(w.perms[c, f])]
        (c0, f0), (c1, f1) = [[int(v) for v in r] for r in row]
        return np.concatenate([self.x[c0].reshape(-1), self.x[c1].reshape(-1)]), [f0, f1], [int(w.perms[c0, f0]), int(w.perms[c1, f1])]

    def max_degree(self, r):
        return max(i["deg"] for g in self.form.groups for i in g["integrands"] if i["rule"] == r)

    def unf(self, r):
        return any(i["unf"] for g in self.form.groups for i in g["integrands"] if i["rule"] == r)

    def record(self, key, e, A0, A1, unit=1):
        """the recording TLC judges: what the form says about entity e and what the kernel added"""
        f, w = self.form, self.world
        gi, _id = self.pos[key]
        g = f.groups[gi]
        row = self.domains[key][e]
        ent = entity_of(key[0], row)
        mode = w.status(key[0], ent)
        xs, lf, qp = self.entity(key, e)
        sides = f.sides(g)
        std = self.std[key]
        ws = std[2 * e:2 * e + 2].reshape(-1) if sides == 2 else std[e]
        rules, bound = [], 0.0
        for r in g["order"]:
            unf = self.unf(r)
            if mode == "cut":
                pts, wts, nrm = w.quad("unf" if unf else KIND[key[0]], self.max_degree(r), ent)
            elif mode == "full":
                pts, wts, nrm = np.asarray(f.rules[r]["pts"], float), np.asarray(f.rules[r]["wts"], float), np.zeros((0, f.tdim))
            else:
                pts, wts, nrm = np.zeros((0, 1)), np.zeros(0), np.zeros((0, 1))

            def at(el, fc, der, s):
                codim = f.tdim - TDIM[el.cell_type.name]
                if key[0] == "cell":
                    p = pts
                else:
                    perm = sides == 2 or g["mixed"]
                    y = inv_permute(w.fcell, qp[0], pts) if perm and mode == "cut" else pts
                    p = y if codim else facet_map(f.cell, lf[s], permute(w.fcell, qp[s], y) if perm else y)
                return tabulate(el, fc, der, p)
            terms = []
            skip = mode == "empty" or len(wts) == 0
            for t in [] if skip else [t for i in g["integrands"] if i["rule"] == r for t in i["terms"]]:
                fs, mag = [], np.abs(wts) * abs(t["scale"])
                for q in t["f"]:
                    if q["k"] == "c":
                        pos = f.const_off[q["i"]] + q["j"]
                        fs.append({"k": "c", "p": pos, "n": f.spec["normals"].index(q["i"]) if q["i"] in f.spec["normals"] else -1, "j": q["j"]})
                        mag = mag * max(2, abs(self.const[pos]))
                    elif q["k"] == "g":
                        fs.append({"k": "g", "v": geom(lf[q["s"]], q["j"])})
                        mag = mag * 2
                    else:
                        el = f.elements[q["e"]]
                        _ce, off, stride = comp(el, q["fc"])
                        T = at(el, q["fc"], q["der"], q["s"])
                        if q["k"] == "w":
                            o = f.coeff_offsets(g)[q["i"]] + q["s"] * f.coeffs[q["i"]].dim + off
                            vals = np.abs(ws)
                        else:
                            o, stride, vals = q["s"] * 3 * f.nk + q["a"], 3, np.abs(xs)
                        d = [o + stride * m for m in range(T.shape[1])]
                        mag = mag * (np.abs(T) @ vals[d])
                        fs.append({"k": q["k"], "d": d, "T": ints(T)})
                rec = {"s": int(t["scale"]), "f": fs}
                per = mag
                for a, dim in (("test", f.test), ("trial", f.trial)):
                    if t.get(a):
                        q = t[a]
                        el = f.elements[q["e"]]
                        _ce, off, stride = comp(el, q["fc"])
                        T = at(el, q["fc"], q["der"], q["s"])
                        per = per * (np.abs(T).max(axis=1) if T.size else 0)
                        rec[a] = {"d": [q["s"] * el.dim + off + stride * m for m in range(T.shape[1])],
                                  "T": ints(T, unit if a == "test" else 1)}
                terms.append(rec)
                bound += float(np.sum(per))
            rules.append({"unf": bool(unf), "w": ints(wts), "n": ints(nrm.reshape(-1, f.tdim)) if mode == "cut" and unf else [], "terms": terms})
        lim = (1.0e5 if unit > 1 else 1.0e8) if f.real == "f64" else 4.0e3 if unit > 1 else 4.0e6
        if bound > lim:
            raise Reject(f"numbers too large ({bound})")
        R, C = f.dims(g)
        return plain_ints({"mode": mode, "R": R, "C": C, "U": unit, "f32": f.real == "f32", "A0": pairs(A0, 1), "A1": pairs(A1, unit),
                "c": pairs(self.const), "w": pairs(ws), "x": ints(xs), "rules": rules})


def plain_ints(o):
    if isinstance(o, dict):
        return {k: plain_ints(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [plain_ints(v) for v in o]
    return int(o) if isinstance(o, np.integer) else o


def ints(a, unit=1):
    a = np.asarray(a, dtype=float)
    v = np.rint(a * unit)
    if unit == 1 and not np.allclose(v, a, atol=1e-6):
        raise Reject("not integer")
    return v.astype(int).tolist()


BIG = 2_000_000_000


def pairs(a, unit=1):
    """(re, im) integers; anything that is not one becomes BIG"""
    r = []
    for z in np.asarray(a).reshape(-1):
        q = []
        for v in (float(np.real(z)), float(np.imag(z))):
            v = v * unit
            if not np.isfinite(v) or abs(v) > 1.9e9 or (unit == 1 and abs(v - round(v)) > 0.05):
                q.append(BIG)
            else:
                q.append(int(round(v)))
        r.append(q)
    return r


# ---------------------------------------------------------------- random forms
INT_ELEMENTS = {
    "triangle": [["P", 1], ["P", 2], ["P", 1, {"disc": 1}], ["P", 0, {"disc": 1}], ["RT", 1], ["N1E", 1], ["CR", 1]],
    "tetrahedron": [["P", 1], ["P", 1, {"disc": 1}], ["P", 0, {"disc": 1}], ["N1E", 1], ["CR", 1], ["P", 2]],
    "quadrilateral": [["P", 1], ["P", 2], ["P", 1, {"disc": 1}], ["P", 0, {"disc": 1}], ["RT", 1], ["N1E", 1]],
    "hexahedron": [["P", 1], ["P", 1, {"disc": 1}], ["P", 0, {"disc": 1}], ["RT", 1], ["N1E", 1]],
    "interval": [["P", 1], ["P", 2], ["P", 0, {"disc": 1}]],
}
FAMILIES = {"P": "Lagrange", "RT": "RT", "N1E": "N1E", "CR": "CR", "DPC": "DPC", "S": "serendipity", "BDM": "BDM", "N2E": "N2E"}
NONINT = {
    "triangle": [["P", 3, {"lv": v}] for v in ("gll_warped", "equispaced", "gll_isaac", "gll_centroid")]
    + [["P", 3, {"lv": "legendre", "disc": 1}], ["P", 2, {"lv": "chebyshev_warped", "disc": 1}], ["P", 3, {"lv": "gl_isaac", "disc": 1}],
       ["P", 2, {"lv": "gl_warped", "disc": 1}], ["RT", 2], ["N1E", 2], ["BDM", 1], ["N2E", 1], ["BDM", 2], ["RT", 2, {"lv": "equispaced"}],
       ["Regge", 0], ["HHJ", 0], ["bubble", 3]],
    "quadrilateral": [["P", 3, {"lv": v}] for v in ("gll_warped", "equispaced")]
    + [["P", 2, {"lv": "legendre", "disc": 1}], ["P", 2, {"lv": "gl_warped", "disc": 1}], ["DPC", 2, {"dv": "diagonal_gll", "disc": 1}],
       ["DPC", 2, {"dv": "legendre", "disc": 1}], ["DPC", 1, {"dv": "horizontal_equispaced", "disc": 1}], ["DPC", 2, {"dv": "simplex_gll", "disc": 1}],
       ["serendipity", 2, {"lv": "legendre", "dv": "legendre"}], ["RT", 2], ["N1E", 2]],
    "tetrahedron": [["P", 3, {"lv": "gll_warped"}], ["P", 3, {"lv": "equispaced"}], ["P", 1, {"lv": "legendre", "disc": 1}], ["RT", 2], ["BDM", 1], ["N2E", 1]],
    "hexahedron": [["P", 2, {"lv": "legendre", "disc": 1}], ["P", 3, {"lv": "gll_warped"}], ["DPC", 1, {"dv": "legendre", "disc": 1}], ["RT", 1]],
    "interval": [["P", 3, {"lv": "gll_warped"}], ["P", 3, {"lv": "equispaced"}]],
}
_size = {}


def fam(d):
    if d[0] in ("V", "S"):
        return [d[0], fam(d[1]), *d[2:]]
    if d[0] == "M":
        return ["M", [fam(x) for x in d[1]]]
    return [FAMILIES.get(d[0], d[0]), *d[1:]]


def spec_element(d, cell):
    return make_element(fam(d), cell)


def random_element(rng, cell, cap):
    """an integer-valued element with at most cap dofs"""
    for _ in range(50):
        base = INT_ELEMENTS[cell][rng.integers(len(INT_ELEMENTS[cell]))]
        kind = rng.integers(0, 10)
        vec = base[0] in ("RT", "N1E")
        t = TDIM[cell]
        if kind < 5 or t == 1:
            d = base
        elif kind < 7:
            d = base if vec else ["V", base, [[t], [1], [2], [3]][rng.integers(4)]]
        elif kind == 7:
            d = base if vec else ["S", ["P", 1]]
        else:
            other = INT_ELEMENTS[cell][rng.integers(len(INT_ELEMENTS[cell]))]
            first = base if vec else ["V", base, [t]]
            d = ["M", [first, other]]
            if rng.integers(3) == 0:
                d = ["M", [["M", [other, ["P", 1]]], base]]
            elif rng.integers(3) == 0:
                d = ["M", [other, first]]
        key = (str(d), cell)
        if key not in _size:
            _size[key] = spec_element(d, cell).dim
        if _size[key] <= cap:
            return d
    return ["P", 1]


SHAPES = {2: [[[2, 1], [1, 3]], [[0, 2], [2, -1], [1, 3]], [[3, 1], [1, 2]], [[2, 3]]],
          3: [[[2, 1, 3], [1, 3, 2]], [[0, 2, -1], [2, -1, 1]], [[1, 2, 3]]],
          1: [[[2], [3]], [[-1], [2], [3]], [[3]]]}


def n_comps(e):
    return e.block_size if getattr(e, "_has_symmetry", False) else e.reference_value_size


def random_spec(rng, cell, itypes, real="f64", cplx=False, mixed=False, nonint=None, rank=None, unf=False, groups=None, midpoint=False,
                max_terms=3, one_rule=None):
    """a random form specification; Reject may be raised later"""
    t = TDIM[cell]
    argcell = FACET[cell] if mixed else cell
    cap = 6 if real == "f32" else 12 if t == 3 else 14
    rank = int(rng.integers(0, 3)) if rank is None else rank
    spec = {"cell": cell, "real": real, "cplx": cplx, "mixed": mixed, "cdeg": 2 if t == 2 and real == "f64" and rng.integers(5) == 0 else 1}
    e1 = random_element(rng, argcell, cap)
    e2 = e1 if rng.integers(2) else random_element(rng, argcell, cap)
    spec["test"], spec["trial"] = (e1 if rank > 0 else None), (e2 if rank > 1 else None)
    if nonint is not None:
        spec["test"], spec["trial"] = nonint, None
    nco = int(rng.integers(0, 3))
    spec["coeffs"], spec["coeffs_mixed"] = [], []
    for _ in range(nco):
        cm = int(mixed and rng.integers(2))
        spec["coeffs_mixed"].append(cm)
        spec["coeffs"].append(random_element(rng, argcell if cm else cell, cap))
    spec["consts"] = [int(rng.integers(1, 4)) for _ in range(rng.integers(0, 3))]
    spec["normals"] = []
    if unf or rng.integers(4) == 0:
        at = int(rng.integers(0, len(spec["consts"]) + 1))
        spec["consts"].insert(at, t)
        spec["normals"] = [at]
        if rng.integers(3) == 0:
            spec["consts"].append(t)
            spec["normals"].append(len(spec["consts"]) - 1)
    spec = {**spec, "test": spec["test"] and fam(spec["test"]), "trial": spec["trial"] and fam(spec["trial"]),
            "coeffs": [fam(d) for d in spec["coeffs"]]}
    # rules
    spec["rules"], spec["groups"] = [], []
    groups = groups or [[it, int(rng.integers(1, 3))] for it in itypes]
    deg = iter(rng.permutation(np.arange(1, 30)).tolist())

    def new_rule(dim, unfr=False, scheme=None, forwhat=None, single=False):
        opts = [p for p in SHAPES[dim] if (len(p) == 1) == single]
        for _ in range(20):
            p = opts[rng.integers(len(opts))]
            p = [list(map(float, q)) for q in p]
            if rng.integers(2):
                p = p[::-1]
            if any(r["pts"] == p for r in spec["rules"]):
                p = [[v + int(rng.integers(0, 3)) for v in q] for q in p]
            if midpoint and single:
                p = [[0.5] * dim if (dim == 1 or cell in ("quadrilateral", "hexahedron")) else [1 / (dim + 1)] * dim]
            if not any(r["pts"] == p for r in spec["rules"]):
                break
        else:
            raise Reject("rules")
        spec["rules"].append({"pts": p, "wts": [float(rng.choice([-1, 1, 2])) for _ in p], "scheme": scheme or "custom", "for": forwhat or [],
                              "mid": bool(midpoint and single)})
        return len(spec["rules"]) - 1
    unf_rule = None
    elements = [["V", ["P", spec["cdeg"]], [t]], spec["test"], spec["trial"], *spec["coeffs"]]
    cells = [cell, argcell, argcell] + [argcell if m else cell for m in spec["coeffs_mixed"]]
    els, index = [], []
    for d, ce in zip(elements, cells):
        e = make_element(d, ce) if d else None
        if e is not None and e not in els:
            els.append(e)
        index.append(els.index(e) if e is not None else None)

    def terminal(k, which, sides, maxder=1):
        e = els[index[which]]
        ed = TDIM[e.cell_type.name]
        der = [0] * ed
        if maxder and rng.integers(2):
            der[rng.integers(ed)] += 1
            if maxder > 1 and rng.integers(3) == 0:
                der[rng.integers(ed)] += 1
        return {"k": k, "e": index[which], "fc": int(rng.integers(n_comps(e))), "der": der, "s": int(rng.integers(sides))}

    def term(sides, itype, isunf, force=None):
        r = {"scale": int(rng.choice([-2, -1, 1, 1, 2, 3])), "f": []}
        if force == "x" or rng.integers(4) == 0:
            f = terminal("x", 0, sides)
            f["a"] = f["fc"]
            if force == "x":
                f["der"] = [0] * t
                f["der"][rng.integers(t)] = 1
            r["f"].append(f)
        for _ in range(rng.integers(0, 2) if not spec["coeffs"] else rng.integers(0, 3)):
            if spec["coeffs"]:
                i = int(rng.integers(len(spec["coeffs"])))
                f = terminal("w", 3 + i, sides, 2)
                f["i"] = i
                r["f"].append(f)
        if spec["consts"] and rng.integers(2):
            i = int(rng.integers(len(spec["consts"])))
            r["f"].append({"k": "c", "i": i, "j": int(rng.integers(spec["consts"][i]))})
        if isunf and rng.integers(3):
            i = int(rng.choice(spec["normals"]))
            r["f"].append({"k": "c", "i": i, "j": int(rng.integers(t))})
        if (itype == "exterior_facet" and rng.integers(2)) or force == "g":
            r["f"].append({"k": "g", "s": int(rng.integers(sides)), "j": int(rng.integers(t))})
        if spec["test"]:
            r["test"] = terminal("v", 1, sides, 2 if nonint is None else 1)
        if spec["trial"]:
            r["trial"] = terminal("v", 2, sides)
        rng.shuffle(r["f"])
        return r
    nid = {}
    for itype, count in groups:
        sides = 2 if itype == "interior_facet" else 1
        dim = t if itype == "cell" else t - 1
        shared = None
        for _ in range(count):
            g = {"type": itype, "style": int(rng.integers(3)), "integrands": []}
            free = [i for i in range(-1, 8) if i not in nid.setdefault(itype, [])]
            k = int(rng.integers(1, 3))
            g["ids"] = sorted(int(x) for x in rng.choice(free, k, replace=False))
            nid[itype] += g["ids"]
            single = 1
            nr = int(rng.integers(1, 3)) if not one_rule else 1
            kinds = ["plain"] * nr
            if unf and itype == "cell":
                kinds = [["unf"], ["plain", "unf"], ["unf", "plain"]][rng.integers(3)]
            for ki, kind in enumerate(kinds):
                if kind == "unf":
                    if unf_rule is None:
                        unf_rule = new_rule(t)
                    r = unf_rule
                elif shared is not None and rng.integers(3) == 0 and not any(i["rule"] == shared for i in g["integrands"]):
                    r = shared
                else:
                    one = single and rng.integers(4) == 0 or (one_rule == "single")
                    if one:
                        single = 0
                    r = new_rule(dim, scheme="default" if rng.integers(3) == 0 else None, single=bool(one))
                    if not one:
                        shared = r
                for _i in range(int(rng.integers(1, 3))):
                    d = int(next(deg))
                    spec["rules"][r]["for"].append([itype, d])
                    g["integrands"].append({"rule": r, "deg": d, "unf": kind == "unf",
                                            "terms": [term(sides, itype, kind == "unf") for _t in range(rng.integers(1, max_terms))]})
            # every integral has a Jacobian and uses the facets of every side
            first = g["integrands"][0]
            first["terms"].append(term(sides, itype, first["unf"], "x"))
            if sides == 2:
                for s in (0, 1):
                    x = term(sides, itype, False, "g")
                    x["f"] = [f for f in x["f"] if f["k"] != "g"] + [{"k": "g", "s": s, "j": int(rng.integers(t))}]
                    first["terms"].append(x)
            elif itype == "exterior_facet":
                first["terms"].append(term(sides, itype, False, "g"))
            rs = []
            for i in g["integrands"]:
                if i["rule"] not in rs:
                    rs.append(i["rule"])
            g["order"] = [int(x) for x in rng.permutation(rs)]
            spec["groups"].append(g)
    return spec


def qp_ok(form):
    """FFCx input that qugar accepts: interior facets that permute on one side only are refused"""
    import re
    for g in form.groups:
        used = set(re.findall(r"quadrature_permutation\[(\d)\]", g["code"]))
        if g["type"] == "interior_facet" and used not in (set(), {"0", "1"}):
            return False
        ent = set(re.findall(r"entity_local_index\[(\d)\]", g["code"]))
        want = {"cell": set(), "exterior_facet": {"0"}, "interior_facet": {"0", "1"}}[g["type"]]
        if ent != want:
            return False
    return True


def random_form(rng, tag, tries=400, **kw):
    last = None
    for _ in range(tries):
        try:
            f = Form(random_spec(rng, **kw), tag)
        except Reject as e:
            last = e
            continue
        if qp_ok(f):
            return f
    raise AssertionError(f"no form found: {kw} {last}")


def run_cases(c, shim, cases, opt="-O1"):
    """cases: {tag: (Case, packed coefficients)}; returns [(tag, key, entity, A0, A1)]; reports failures to compile or crashes"""
    from shimlib import feed
    good, bad = compile_all(c.tmp / "kernels", {t: k.form.new_code for t, (k, _p) in cases.items()}, opt=opt)
    for t, msg in bad.items():
        c.violation(f"the generated code of form {t} does not compile: {msg.strip().splitlines()[0][:160] if msg.strip() else ''}", {"spec": cases[t][0].form.spec, "compiler": msg[-2000:]})
    scripts, order = [], []
    for t in good:
        case, packed = cases[t]
        f = case.form
        arrays, calls, meta = {}, [], []
        for n, (key, arr) in enumerate(packed.items()):
            gi, _id = case.pos[key]
            g = f.groups[gi]
            nm = f"w{n}"
            arrays[nm] = np.ascontiguousarray(arr)
            sides = f.sides(g)
            R, C = f.dims(g)
            for e in range(case.domains[key].shape[0]):
                xs, lf, qp = case.entity(key, e)
                A0 = [[int(case.rng.integers(-3, 4)), int(case.rng.integers(-3, 4)) if f.cplx else 0] for _ in range(R * C)]
                if g["type"] == "exterior_facet" and not g["mixed"]:
                    qp = []
                calls.append({"fn": f"tabulate_tensor_integral_{g['name']}_{f.cell}", "w": nm, "off": e * sides * arr.shape[1],
                              "c": pairs(case.const), "x": ints(xs), "lf": lf, "qp": qp, "A0": A0})
                meta.append((key, e, A0))
        path = c.tmp / "kernels" / f"{t}.npz"
        np.savez(path, **arrays)
        scripts.append({"so": str(good[t]), "npz": str(path), "calls": calls})
        order.append((t, meta))
    res, errs = feed(c, "kernel_run.py", [shim], scripts, jobs=8) if scripts else ([], [])
    for i, err in errs:
        t = order[i][0] if i < len(order) else "?"
        c.violation(f"the kernels of form {t} crash: {err[:200]}", {"spec": cases[t][0].form.spec if t in cases else None, "err": err})
    out = []
    for (t, meta), r in zip(order, res):
        if r is None:
            continue
        for (key, e, A0), A1 in zip(meta, r):
            if A1 and A1[-1][0] == "touched":
                c.violation(f"the kernel of form {t} writes outside the element tensor", {"spec": cases[t][0].form.spec})
                A1 = A1[:-1]
            out.append((t, key, e, [complex(*p) for p in A0], [complex(*p) for p in A1]))
    return out
