"""Representatives, boundaries and preimages of direct persistent homology."""
import numpy as np

from .. import algen, oracle as O
from ..core import bars_of, ints, require, sut
from ..pipeline import standard_order
from . import c05

RULE = ("there is a finite bar in positive dimension or a boundary whose "
        "preimage has at least two simplices")
BUDGET = {"quick": {"examples": 8000, "wall": 20},
          "thorough": {"examples": 120000, "wall": 600}}
ASSUMPTIONS = c05.ASSUMPTIONS

generate = c05.generate


def columns(M, n, k, p, what):
    """Columns of a matrix that must be n x k, as lists of residues."""
    M = np.asarray(M)
    if k == 0:
        return []
    require(M.ndim == 2 and M.shape == (n, k),
            "%s has shape %r, expected %r", what, M.shape, (n, k))
    return [list(c) for c in zip(*ints(M, p, what))]


def check(case, ctx):
    p, R = case["p"], float(case["max_r"])
    lv = case["levels"]
    births = [[float(b) for _, b in lev] for lev in lv]
    B = [None] + [algen.boundary_rows(lv, d, p) for d in range(1, len(lv))]
    radii = sorted({b for bs in births for b in bs})
    with sut("persistent_homology"):
        D, _, Hom, Im, PreIm = c05.run(case)
        Dm = [None] + [ints(np.asarray(D[d]).reshape(
            len(lv[d - 1]), len(lv[d])), p) for d in range(1, len(lv))]
        for d in range(len(lv)):
            n = len(lv[d])
            bars = bars_of(Hom[d])
            cyc = columns(Hom[d].coordinates, n, len(bars), p,
                          "representatives in dimension %d" % d)
            standard_order(bars, "homology")
            for (b, e), c in zip(bars, cyc):
                require(any(c), "zero representative in dimension %d", d)
                require(all(not x or births[d][i] <= b
                            for i, x in enumerate(c)),
                        "representative of a class born at %r uses a simplex "
                        "born later (dimension %d)", b, d)
                if d:
                    require(not any(O.matvec(B[d], c, p)),
                            "representative in dimension %d is not a cycle", d)
            up = [list(c) for c in zip(*B[d + 1])] if d + 1 < len(lv) and \
                lv[d + 1] else []
            for r in radii:
                bd = [c for j, c in enumerate(up) if births[d + 1][j] <= r]
                rb = O.rank(bd, p) if bd else 0
                act = [c for (b, e), c in zip(bars, cyc) if b <= r < e]
                old = [c for (b, e), c in zip(bars, cyc) if e <= r]
                require(not act or O.rank(bd + act, p) == rb + len(act),
                        "classes alive at %r in dimension %d are dependent",
                        r, d)
                require(not old or O.rank(bd + old, p) == rb,
                        "a class that died before %r in dimension %d is not "
                        "a boundary", r, d)
                if d:
                    live = [j for j in range(n) if births[d][j] <= r]
                    z = len(live) - (O.rank(
                        [[row[j] for j in live] for row in B[d]], p)
                        if live else 0)
                else:
                    z = sum(b <= r for b in births[0])
                require(len(act) == z - rb, "%d classes alive at %r in "
                        "dimension %d, the Betti number is %d", len(act), r, d,
                        z - rb)
            # boundaries and preimages
            if d + 1 >= len(lv):
                require(len(bars_of(Im[d])) == 0, "boundaries in top degree")
                continue
            ib = bars_of(Im[d])
            im = columns(Im[d].coordinates, n, len(ib), p, "boundaries")
            pre = columns(PreIm[d + 1], len(lv[d + 1]), len(ib), p,
                          "preimages") if ib else []
            standard_order(ib, "boundaries")
            for (b, e), c, q in zip(ib, im, pre):
                require(e == R, "a boundary does not live until max_rad")
                require(O.matvec(Dm[d + 1], q, p) == c,
                        "a preimage does not map to its boundary "
                        "(dimension %d)", d + 1)
                require(all(not x or births[d + 1][i] <= b
                            for i, x in enumerate(q)),
                        "the preimage of a boundary born at %r uses a simplex "
                        "born later", b)
                if sum(1 for x in q if x) > 1:
                    ctx.nontrivial = True
            for r in radii:
                bd = [c for j, c in enumerate(up) if births[d + 1][j] <= r]
                act = [c for (b, e), c in zip(ib, im) if b <= r]
                rb = O.rank(bd, p) if bd else 0
                require(len(act) == rb and (
                    not act or O.rank(act, p) == rb == O.rank(act + bd, p)),
                    "boundaries alive at %r in dimension %d are not a basis",
                    r, d)
    ctx.label("kind:" + case["kind"], "p=%d" % p)
    if any(e < R for d in range(1, len(lv)) for _, e in bars_of(Hom[d])):
        ctx.nontrivial = True
