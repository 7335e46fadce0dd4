"""Gluing bars along extension coefficients (broken barcode bases)."""
import numpy as np

from .. import algen, oracle as O
from ..core import bars_of, require, Snap, same_bars, sut
from ..pipeline import standard_order

RULE = "some generator continues into others when its bar ends"
BUDGET = {"quick": {"examples": 45000, "wall": 20},
          "thorough": {"examples": 400000, "wall": 600}}
ASSUMPTIONS = ["a generator continues into generators of earlier filtration "
               "that are alive when its bar ends"]


def generate(s, tier):
    p = s.pick([2, 3, 5, 7, 13, 1009])
    m = s.pick([4, 7, 10])
    n = s.int(1, 8 if tier == "quick" else 11)
    bs = algen.bars(s, n, m)
    bs = [[a, m if s.chance(30) else b] for a, b in bs]
    ext = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            if bs[i][1] < m and bs[j][0] <= bs[i][1] < bs[j][1]:
                if s.chance(70):
                    ext[j][i] = s.int(0, p - 1)
    g = algen.grades(s, m)
    return {"bars": algen.regrade(g, bs), "ext": ext, "p": p, "R": g[m],
            "sort": [s.chance(75), s.chance(60)]}


def check(case, ctx):
    from permaviss.persistence_algebra.barcode_bases import barcode_basis
    from permaviss.persistence_algebra.image_kernel import image_kernel
    bs, ext, p, R = (case[k] for k in ("bars", "ext", "p", "R"))
    n = len(bs)
    want = O.glued_module_barcode(bs, ext, p)
    want = [(a, R if b is None else b) for a, b in want]
    snap = Snap([x for b in bs for x in b] + [R], 0)
    with sut("image_kernel on a broken basis"):
        dom = barcode_basis(np.array(bs, dtype=float))
        rng = barcode_basis(
            np.array(bs, dtype=float), broken_basis=True,
            broken_differentials=np.array(ext, dtype=float))
        F = np.identity(n)
        # as create_MV_ss does, or leaving it to image_kernel
        if case.get("sort", [1, 1])[0]:
            F = F[:, dom.sort(send_order=True)]
        if case.get("sort", [1, 1])[1]:
            F = F[rng.sort(send_order=True)]
        dom.barcode[:, 1] = R
        F0 = F.copy()
        out = image_kernel(dom, rng, F, p)
        require(len(out) == 2, "a broken basis gives the image only")
        got = bars_of(out[0])
        require(np.array_equal(F, F0), "the matrix was changed")
        same_bars(got, want, snap, "glued module")
        standard_order(got, "glued module")
    ctx.nontrivial = any(any(r) for r in ext)
    if any(sum(1 for j in range(n) if ext[j][i]) > 1 for i in range(n)):
        ctx.label("continues into several")
    if any(ext[j][i] and any(ext[k][j] for k in range(n))
           for i in range(n) for j in range(n)):
        ctx.label("continues twice")
