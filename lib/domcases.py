"""Random unfitted domains on the lattice of UnfittedGeometry.tla, as cases of drivers/cxx/domain.cpp."""
from __future__ import annotations

U = 2048
SOURCES = ["tensor_index_tp", "cart_grid_tp", "bbox", "tolerance", "point", "unfitted_domain_binary_part", "unfitted_domain",
           "impl_unfitted_domain", "impl_utils", "impl_quadrature", "quadrature", "quadrature_lib", "cut_quadrature", "bezier_tp",
           "bezier_tp_utils", "bezier_tp_utils_composition", "polynomial_tp", "monomials_tp"]
join = lambda *vs: " ".join(str(x) for v in vs for x in v)


def index(sizes, t):
    r = 0
    for s, x in zip(reversed(sizes), reversed(t)):
        r = r * s + x
    return r


def tuples(sizes):
    if not sizes:
        yield ()
        return
    for last in range(sizes[-1]):
        for t in tuples(sizes[:-1]):
            yield (*t, last)


def domain(rng, dim, shapes):
    """-> text of the grid and the function, facts for the specification"""
    n = list(rng.choice(shapes))
    style = rng.choice(["noise", "blob", "planes", "cellwise", "bezier"])
    breaks = []
    for k in n:
        if style == "bezier":  # within the unit box, where these functions live
            w = [rng.choice([U // 16, U // 8, U // 8, U // 4]) for _ in range(k)]
            x = rng.randint(0, (U - sum(w)) // 64) * 64
            breaks.append([x + sum(w[:i]) for i in range(k + 1)])
            continue
        b = [rng.randint(-4, 4) * U // 4]
        for _ in range(k):
            b.append(b[-1] + rng.choice([U // 8, U // 4, U // 4, U // 2, U]))
        breaks.append(b)
    sizes = [2 * k + 2 for k in n]
    bits = [0] * (len(list(tuples(sizes))))
    grid = " ".join(join([len(b)], b) for b in breaks)
    if style == "bezier":
        d, s, k = rng.randrange(dim), rng.choice([-1, 1]), rng.choice([1, 2])
        at = sorted(rng.sample(range(1, sizes[d]), k))  # planes between micro cells at-1 and at
        for t in tuples(sizes):
            below = [t[d] < a for a in at]
            sign = s * (-1 if below[0] else 1) * (1 if k == 1 else (-1 if below[1] else 1))
            bits[index(sizes, t)] = int(sign < 0)
        b = breaks[d]
        planes = [b[(a - 1) // 2] if (a - 1) % 2 == 0 else (b[(a - 1) // 2] + b[(a + 1) // 2]) // 2 for a in at]
        fun = f"b {d} {s} {k} {join(planes)}"
    else:
        if style == "noise":
            p = rng.choice([.3, .5, .7, .85, .95])
            bits = [int(rng.random() < p) for _ in bits]
        elif style == "blob":
            flip = rng.random() < .5
            bits = [int(flip)] * len(bits)
            for _ in range(rng.randint(1, 3)):
                lo = [rng.randrange(z) for z in sizes]
                hi = [rng.randint(x, z) for x, z in zip(lo, sizes)]
                for t in tuples(sizes):
                    if all(a <= x <= b for a, x, b in zip(lo, t, hi)):
                        bits[index(sizes, t)] = int(not flip)
        elif style == "planes":
            d, a = rng.randrange(dim), None
            cuts = [rng.randrange(sizes[k] + 1) for k in range(dim)]
            for t in tuples(sizes):
                v = t[d] < cuts[d]
                if rng.random() < .03:
                    v = not v
                bits[index(sizes, t)] = int(v)
        else:
            cells = {}
            for t in tuples(sizes):
                key = tuple((x + 1) // 2 for x in t)
                v = cells.setdefault(key, rng.random() < .6)
                bits[index(sizes, t)] = int(v ^ (rng.random() < .06))
        fun = f"m {rng.choice([1, 1, 2.5])} {''.join(map(str, bits))}"
    cells = 1
    for k in n:
        cells *= k
    given, everything = [], rng.random() < .7
    if not everything:
        given = [rng.randrange(cells) for _ in range(rng.randint(0, cells))]
        if rng.random() < .3:
            given = rng.sample(range(cells), cells)
    text = f"{grid} {fun} " + ("-1" if everything else join([len(given)], given))
    return text, {"n": n, "bits": bits, "all": everything, "given": given, "style": style}, cells
