"""Extension coefficients relate representatives at the death of a class."""
import numpy as np

from .. import geom
from ..core import bars_of, ints, require, sut
from ..pipeline import mv
from ..reps import Decoder, project, rips_boundary
from ..total import Span

RULE = "an extension coefficient is not zero"
BUDGET = {"quick": {"examples": 1800, "wall": 70},
          "thorough": {"examples": 60000, "wall": 780}}
ASSUMPTIONS = [
    "the overlap is at least max_r, so that the cover resolves the complex",
    "max_r is not within 5e-7 (relative) of a pairwise distance",
]
MIX = ["label"] * 7 + ["octa"] * 4 + ["slab"] * 4 + [
    "lat2", "lat2", "susp", "ring", "rings", "rings", "thin", "uni2", "lat3",
    "cubes"]

smaller = geom.smaller


def generate(s, tier):
    return geom.cloud_case(s, 400 if tier == "quick" else 2000, MIX,
                           max_dims=[2, 3, 3, 4],
                           deep=0 if tier == "quick" else 15)


def check(case, ctx):
    with sut("create_MV_ss"):
        ss = mv(case)
        last = int(ss.no_pages) - 1
        dec = Decoder(ss)
    md, p = case["max_dim"], case["p"]
    s = geom.scale_of(geom.points(case))
    tol = 1e-7 * s
    levels, _ = geom.reference(case)
    for n in range(1, md):
        for i in range(1, min(n + 1, len(ss.Hom[last]))):
            j = n - i
            with sut("extension at column %d, row %d" % (i, j)):
                bars = bars_of(ss.Hom[last][i][j])
                if not bars:
                    continue
                reps = dec.reps(last, i, j)
                ext = ss.extensions[i][j]
                require(len(ext) <= i + 1, "%d extension matrices at column "
                        "%d, expected %d", len(ext), i, i + 1)
                ext = list(ext) + [[]] * (i + 1 - len(ext))
                E, T, TB = [], [], []
                for m, blk in enumerate(ext):
                    tb = bars_of(ss.Hom[last][i - m][j + m])
                    blk = np.asarray(blk)
                    if blk.size == 0:       # none is as good as zeros
                        blk = np.zeros((len(tb), len(bars)))
                    if tb:
                        require(blk.shape == (len(tb), len(bars)),
                                "extension matrix of shape %r for %d and %d "
                                "classes", blk.shape, len(tb), len(bars))
                    E.append(ints(blk, p) if tb else [])
                    TB.append(tb)
                    T.append([project(x, p)
                              for x in dec.reps(last, i - m, j + m)])
                    if tb and np.any(blk):
                        ctx.nontrivial = True
                        ctx.label("step_%d" % m)
            for c, (a, b) in enumerate(bars):
                z = dict(project(reps[c], p))
                used = []
                for m, blk in enumerate(E):
                    for e, row in enumerate(blk):
                        if row[c]:
                            used.append((m, e))
                            for t, q in T[m][e].items():
                                z[t] = (z.get(t, 0) - row[c] * q) % p
                where = "class %d of column %d, row %d" % (c, i, j)
                if b > case["max_r"] - tol:
                    require(not used, "%s never dies and has extension "
                            "coefficients", where)
                    continue
                for m, e in used:
                    x, y = TB[m][e]
                    # radii that differ by rounding are different radii
                    require(x <= b + tol and b < y,
                            "%s dies at %g and is extended by a class that "
                            "lives in [%g, %g)", where, b, x, y)
                S = Span(p)
                for t, r in levels[n + 1].items():
                    if r <= b + tol:
                        S.insert(rips_boundary({t: 1}, p))
                require(not S.insert(z), "%s: at its death %g it is not the "
                        "combination of classes given by the extension "
                        "coefficients", where, b)
    with sut("features"):
        f = geom.features(ss)
    ctx.label("kind:" + case["kind"], *f)
