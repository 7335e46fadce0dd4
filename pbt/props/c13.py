"""The Vietoris-Rips complex."""
import numpy as np

from .. import geom, oracle as O
from ..core import require, sut

RULE = "some simplex of dimension 2 or more is present and some pair is not"
BUDGET = {"quick": {"examples": 80000, "wall": 18},
          "thorough": {"examples": 200000, "wall": 600}}
ASSUMPTIONS = ["the distance matrix is symmetric with zero diagonal"]


def generate(s, tier):
    n = s.pick([s.int(0, 3), s.int(4, 8), s.int(5, 9)])
    big = s.chance(2)
    if big:
        n = s.int(10, 16)
    kind = s.pick(["matrix", "matrix", "points"])
    if kind == "points":
        dim = s.int(1, 3)
        X = [[s.int(0, 4) / 2 for _ in range(dim)] for _ in range(n)]
        D = geom.dist_matrix(np.array(X).reshape(n, dim)).tolist()
    else:
        g = s.pick([3, 6, 50])
        D = [[0.0] * n for _ in range(n)]
        for i in range(n):
            for j in range(i):
                D[i][j] = D[j][i] = s.int(0 if s.chance(10) else 1, g) / 4
    u = s.pick([1] * 8 + [4, 2.0 ** -40, 2.0 ** 20])
    if u != 1:
        D = [[x * u for x in r] for r in D]
    whole = u == 4 and all(x == int(x) for r in D for x in r)
    if whole:           # a matrix of integers
        D = [[int(x) for x in r] for r in D]
    vals = sorted({x for r in D for x in r})
    t = s.pick([0, 1, 1, 2, 3, 3, 3, 4])
    if t == 0 or not vals:
        max_r = s.frac(0.1, 4) * u
    elif t == 1:
        max_r = s.pick(vals)        # exactly a distance: it is excluded
    elif t == 2:
        max_r = vals[-1] + 1
    else:
        v = s.pick(vals)
        max_r = v + .05 * u
        if t == 4:      # as near to a distance as possible
            max_r = float(np.nextafter(v, 2 * v + 1))
    return {"D": D, "max_r": max_r, "max_dim": s.pick([2, 3]) if big else s.pick(
                [0, 1, 2, 2, 3, 3, 4, 5]),
            "list": s.chance(30)}


def check(case, ctx):
    from permaviss.simplicial_complexes.vietoris_rips import vietoris_rips
    D, max_r = case["D"], case["max_r"]
    n = len(D)
    md = max(1, case["max_dim"])
    want = O.rips(D, max_r, md)
    with sut("vietoris_rips"):
        M = D if case["list"] else np.array(D).reshape(n, n)
        C, R = vietoris_rips(M, max_r, case["max_dim"])
        require(np.array_equal(np.array(M), np.array(D).reshape(
            np.array(M).shape)), "input changed")
        require(len(C) == md + 1 and len(R) == md + 1,
                "%d degrees, expected %d", len(C), md + 1)
        require(int(C[0]) == n and len(R[0]) == n and not np.any(R[0]),
                "vertices")
        for d in range(1, md + 1):
            require(len(C[d]) == len(R[d]), "radii and simplices differ in "
                    "number")
            sims = [tuple(int(v) for v in t) for t in C[d]]
            for t in sims:
                require(all(a < b for a, b in zip(t, t[1:])),
                        "vertices of %r are not ascending", t)
            require(len(set(sims)) == len(sims), "a %d-simplex is repeated",
                    d)
            require(set(sims) == set(want[d]),
                    "%d-simplices: missing %r, unexpected %r", d,
                    sorted(set(want[d]) - set(sims))[:4],
                    sorted(set(sims) - set(want[d]))[:4])
            for t, r in zip(sims, R[d]):
                require(float(r) == want[d][t],
                        "simplex %r is born at %r, its diameter is %r", t,
                        float(r), want[d][t])
            require(all(a <= b for a, b in zip(R[d], R[d][1:])),
                    "%d-simplices are not ordered by radius", d)
    ctx.nontrivial = md >= 2 and bool(want[2]) and len(want[1]) < n * (
        n - 1) // 2
    ctx.label("max_dim=%d" % case["max_dim"])
