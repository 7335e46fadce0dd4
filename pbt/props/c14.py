"""Differentials of a simplicial complex."""
import numpy as np

from .. import algen, oracle as O
from ..core import ints, require, sut

RULE = "there is a 2-simplex"
BUDGET = {"quick": {"examples": 13000, "wall": 15},
          "thorough": {"examples": 200000, "wall": 500}}
ASSUMPTIONS = ["the complex is closed under faces, simplices list their "
               "vertices in ascending order"]


def generate(s, tier):
    c = algen.filtered_complex(s)
    for lev in c["levels"][1:]:
        if s.chance(40):
            q = s.perm(len(lev))
            lev[:] = [lev[i] for i in q]
    c["p"] = s.pick([2, 3, 5, 7, 11, 101, 65521])
    c["form"] = s.pick(["int", "float", "list"])
    return c


def check(case, ctx):
    from permaviss.simplicial_complexes.differentials import (
        complex_differentials)
    p, lv = case["p"], case["levels"]
    C, _ = algen.complex_arrays(case)
    if case["form"] == "float":
        C = [C[0]] + [c.astype(float) for c in C[1:]]
    elif case["form"] == "list":
        # an empty level may be a plain list, as in a flag complex
        C = [C[0]] + [c if len(c) else [] for c in C[1:]]
    keep = [np.copy(c) for c in C[1:]]
    with sut("complex_differentials"):
        D = complex_differentials(C, p)
        require(all(np.array_equal(a, b) for a, b in zip(keep, C[1:])),
                "input changed")
        require(len(D) == len(lv) and int(D[0]) == len(lv[0]),
                "wrong number of entries")
        M = [None]
        for d in range(1, len(lv)):
            want = algen.boundary_rows(lv, d, p)
            X = np.asarray(D[d])
            require(X.shape == (len(lv[d - 1]), len(lv[d])),
                    "differential %d has shape %r", d, X.shape)
            require(bool(np.all(X >= 0)) and bool(np.all(X < p)),
                    "entries outside 0..p-1")
            got = ints(X, p) if X.size else [[] for _ in want]
            M.append(got)
            neg = [[-x % p for x in r] for r in want]
            require(got == want or got == neg,
                    "differential %d is not the alternating sum of faces", d)
            if d > 1 and lv[d]:
                require(not any(map(any, O.matmul(M[d - 1], got, p))),
                        "differentials %d and %d do not compose to zero",
                        d - 1, d)
    ctx.nontrivial = len(lv) > 2 and bool(lv[2])
    ctx.label("kind:" + case["kind"], case["form"])
