"""Linear equations and products mod p."""
import numpy as np

from .. import algen, oracle as O
from ..core import ints, require, sut, Violation

RULE = ("a solvable system with a non-zero right-hand side, or an unsolvable "
        "one, or a product of non-zero matrices")
BUDGET = {"quick": {"examples": 160000, "wall": 18},
          "thorough": {"examples": 500000, "wall": 600}}
ASSUMPTIONS = ["matrices have residues 0..p-1 as entries, p is prime",
               "several right-hand sides are given as the rows of a matrix"]


def generate(s, tier):
    p = s.pick(algen.MORE_PRIMES)
    what = s.pick(["vector", "matrix", "product"])
    big = 6 if tier == "quick" else 10
    if s.chance(2):
        big = 18
    m, n, k = s.int(1, big), s.int(1, big), s.int(1, 4)
    A = algen.structured(s, m, n, p)
    if what == "product":
        return {"what": what, "A": A, "B": algen.matrix(s, n, k, p), "p": p,
                "vector": s.chance(30), "float": s.chance(50),
                "rep": s.pick([0, 0, 1, 2])}
    if what == "vector":
        k = 1
    B = []
    for _ in range(k):
        if s.chance(85):
            x = [s.int(0, p - 1) if s.chance(70) else 0 for _ in range(n)]
            B.append(O.matvec(A, x, p))
        else:
            B.append([s.int(0, p - 1) for _ in range(m)])
    return {"what": what, "A": A, "B": B, "p": p, "float": s.chance(50)}


def check(case, ctx):
    from permaviss.gauss_mod_p.functions import (
        multiply_mod_p, solve_mod_p, solve_matrix_mod_p)
    p, A, B, what = case["p"], case["A"], case["B"], case["what"]
    dt = float if case["float"] else int
    m, n = len(A), len(A[0])
    MA, MB = np.array(A, dtype=dt), np.array(B, dtype=dt)
    if case.get("rep"):         # other representatives of the residues
        for M in (MA, MB):
            i, j = np.indices(M.shape)
            M += p * ((case["rep"] + 3 * i + 5 * j) % 3 - 1).astype(dt)
    A0, B0 = MA.copy(), MB.copy()
    ctx.label(what)
    if what == "product":
        with sut("multiply_mod_p"):
            b = [[r[0]] for r in B] if case["vector"] else B
            C = multiply_mod_p(MA, MB[:, 0] if case["vector"] else MB, p)
            C = np.asarray(C)
            require(bool(np.all(C >= 0)) and bool(np.all(C < p)),
                    "entries outside 0..p-1")
            got = ints(C.reshape(m, -1), p)
            require(got == O.matmul(A, b, p), "wrong product")
            require(np.array_equal(MA, A0) and np.array_equal(MB, B0),
                    "input changed")
        ctx.nontrivial = any(map(any, got))
        return
    ra = O.rank(A, p)
    cols = [list(c) for c in zip(*A)]
    solvable = all(O.rank(cols + [b], p) == ra for b in B)
    with sut("solve"):
        try:
            if what == "vector":
                X = np.asarray(solve_mod_p(MA, MB[0], p))
                require(X.shape == (n,), "solution has shape %r", X.shape)
                X = X.reshape(n, 1)
            else:
                X = np.asarray(solve_matrix_mod_p(MA, MB, p))
                require(X.shape == (n, len(B)), "solution has shape %r",
                        X.shape)
        except ValueError:
            if solvable:
                raise Violation("ValueError for an equation with a solution")
            X = None
        if X is not None:
            require(solvable, "a result for an equation with no solution")
            require(bool(np.all(X >= 0)) and bool(np.all(X < p)),
                    "entries outside 0..p-1")
            x = ints(X, p)
            for k, b in enumerate(B):
                require(O.matvec(A, [r[k] for r in x], p) == b,
                        "the result is not a solution")
        require(np.array_equal(MA, A) and np.array_equal(MB, B),
                "input changed")
    ctx.label("solvable" if solvable else "unsolvable")
    ctx.nontrivial = not solvable or any(map(any, B))
