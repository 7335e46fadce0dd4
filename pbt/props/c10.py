"""Gaussian elimination by columns."""
import numpy as np

from .. import algen, oracle as O
from ..core import ints, require, sut

RULE = "at least one column has to be reduced by another one"
BUDGET = {"quick": {"examples": 120000, "wall": 18},
          "thorough": {"examples": 500000, "wall": 600}}
ASSUMPTIONS = ["matrices have at least one row and residues 0..p-1 as "
               "entries, p is prime"]


def generate(s, tier):
    p = s.pick(algen.MORE_PRIMES)
    big = 8 if tier == "quick" else 14
    if s.chance(2):
        big = 24
    m, n = s.int(1, big), s.int(1, big)
    return {"A": algen.structured(s, m, n, p), "p": p,
            "float": s.chance(60)}


def pivot(col):
    nz = [i for i, x in enumerate(col) if x]
    return nz[-1] if nz else -1


def check(case, ctx):
    from permaviss.gauss_mod_p.gauss_mod_p import gauss_col, index_pivot
    p = case["p"]
    A = case["A"]
    m, n = len(A), len(A[0])
    with sut("gauss_col"):
        M = np.array(A, dtype=float if case["float"] else int)
        R, T = gauss_col(M, p)
        require(np.array_equal(M, np.array(A)), "gauss_col changed its input")
        require(np.shape(R) == (m, n) and np.shape(T) == (n, n),
                "shapes %r, %r", np.shape(R), np.shape(T))
        for X, what in ((R, "R"), (T, "T")):
            require(bool(np.all(np.asarray(X) >= 0)) and
                    bool(np.all(np.asarray(X) < p)),
                    "%s has entries outside 0..p-1", what)
        r, t = ints(R, p, "R"), ints(T, p, "T")
        require(O.matmul(A, t, p) == r, "A T differs from R")
        for i in range(n):
            require(t[i][i] == 1 and not any(t[i][:i]),
                    "T is not unitriangular: columns are not reduced from "
                    "left to right")
        cols = list(zip(*r))
        piv = [pivot(c) for c in cols if any(c)]
        require(len(set(piv)) == len(piv), "two columns share a pivot")
        for c in zip(*A):
            require(int(index_pivot(np.array(c))) == pivot(c),
                    "index_pivot(%r)", c)
            require(int(index_pivot(list(c))) == pivot(c),
                    "index_pivot(%r)", c)
        require(len(piv) == O.rank(A, p), "wrong number of pivots")
    ctx.nontrivial = any(t[i][j] for i in range(n) for j in range(i + 1, n))
    if len(piv) < n:
        ctx.label("dependent columns")
    ctx.label("p=%d" % p)
