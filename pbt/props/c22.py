"""Lifting through matrices whose columns (and rows) live on intervals."""
import numpy as np

from .. import algen, oracle as O
from ..core import ints, require, sut, Violation

RULE = "a column with two or more non-zero coefficients is lifted"
BUDGET = {"quick": {"examples": 220000, "wall": 16},
          "thorough": {"examples": 1500000, "wall": 500}}
ASSUMPTIONS = [
    "columns to be lifted by birth radius: the generators have pairwise "
    "distinct pivots, apart from later copies of earlier generators",
    "there is at least one generator",
]


def generate(s, tier):
    p = s.pick([2, 3, 5, 7, 13, 101, 65521])
    if s.chance(50):
        return rad(s, p)
    return barcodes(s, p)


def rad(s, p):
    m = s.int(1, 14 if s.chance(5) else 7)
    piv = s.perm(m)[:s.int(1, m)]
    G, R = [], []
    for q in piv:
        G.append([s.int(0, p - 1) if i < q else (s.int(1, p - 1) if i == q
                                                 else 0) for i in range(m)])
        R.append(s.int(0, 6))
    for k in range(len(piv)):
        if s.chance(15):        # the same vector again, born earlier or later
            G.append(list(G[k]))
            R.append(s.int(0, 6))
    cols, radii = [], []
    for _ in range(s.int(1, 4)):
        r = s.int(0, 7)
        act = [k for k in range(len(G)) if R[k] <= r]
        if s.chance(80) and act:
            v = [0] * m
            for k in act:
                c = s.int(0, p - 1)
                v = [(a + c * b) % p for a, b in zip(v, G[k])]
            cols.append(v)
        else:
            cols.append([s.int(0, p - 1) if s.chance(40) else 0
                         for _ in range(m)])
        radii.append(r)
    g = algen.grades(s, 7)
    return {"what": "rad", "p": p, "G": G, "R": [g[r] for r in R],
            "cols": cols, "r": [g[r] for r in radii],
            "neg": s.pick([False] * 6 + [True, 1, 2, 4])}


def barcodes(s, p):
    big = 11 if s.chance(5) else 6
    m, n = s.int(1, big - 1), s.int(1, big)
    g = s.pick([3, 6, 9])
    rows = sorted(algen.bars(s, m, g), key=lambda b: (b[0], -b[1]))
    G = algen.structured(s, m, n, p)
    cb = algen.bars(s, n, g)
    cols, jb = [], []
    for _ in range(s.int(1, 3)):
        b = algen.bar(s, g)
        r = b[0]
        act = [k for k in range(n) if cb[k][0] <= r < cb[k][1]]
        v = [0] * m
        if s.chance(80):
            for k in act:
                c = s.int(0, p - 1)
                v = [(x + c * G[i][k]) % p for i, x in enumerate(v)]
            for i in range(m):
                if not rows[i][0] <= r < rows[i][1] and s.chance(40):
                    v[i] = s.int(0, p - 1)
        else:
            v = [s.int(0, p - 1) for _ in range(m)]
        cols.append(v)
        jb.append(b)
    h = algen.grades(s, g)
    return {"what": "bars", "p": p, "G": G, "rows": algen.regrade(h, rows),
            "cb": algen.regrade(h, cb), "cols": cols,
            "jb": algen.regrade(h, jb)}


def solvable(gens, v, p):
    """Is v a combination of gens?"""
    if not any(v):
        return True
    return O.rank(gens + [v], p) == O.rank(gens, p) if gens else False


def check(case, ctx):
    from permaviss.gauss_mod_p.gauss_mod_p import (
        gauss_barcodes, gauss_col_rad)
    p = case["p"]
    ctx.label(case["what"])
    if case["what"] == "rad":
        G, cols = case["G"], case["cols"]
        n = len(G)
        A = np.array(G + cols, dtype=float).T
        if case["neg"] is True:
            A[:, n:] = A[:, n:] - p * (A[:, n:] > p // 2)
        elif case["neg"]:       # other representatives of the residues
            i, j = np.indices(A.shape)
            A += p * ((case["neg"] + 3 * i + 5 * j) % 3 - 1)
        R = np.array(case["R"] + case["r"], dtype=float)
        ok = all(solvable([G[k] for k in range(n) if case["R"][k] <= r],
                          v, p) for v, r in zip(cols, case["r"]))
        keep = A.copy()
        with sut("gauss_col_rad"):
            try:
                Red, T = gauss_col_rad(A, R, n, p)
            except (RuntimeError, ValueError):
                if ok:
                    raise
                ctx.label("refused")
                return
            if not ok:
                raise Violation("a column that cannot be lifted was accepted")
            require(np.array_equal(A, keep), "the input changed")
            Red, T = np.asarray(Red), np.asarray(T)
            require(Red.shape == A.shape and T.shape == (
                A.shape[1], A.shape[1]), "shapes %r, %r", Red.shape, T.shape)
            require(not np.any(Red[:, n:] % p), "a column is not reduced")
            M = ints(T, p)
            for j, (v, r) in enumerate(zip(cols, case["r"])):
                used = 0
                out = list(v)
                require(M[n + j][n + j] == 1, "column %d is scaled", j)
                for k in range(n + len(cols)):
                    c = M[k][n + j]
                    if not c or k == n + j:
                        continue
                    require(k < n, "column %d uses another column to be "
                            "lifted", j)
                    require(case["R"][k] <= r, "column %d of radius %r uses "
                            "a generator born at %r", j, r, case["R"][k])
                    used += 1
                    out = [(a + c * b) % p for a, b in zip(out, G[k])]
                require(not any(x % p for x in out), "column %d plus its "
                        "combination is not zero", j)
                ctx.nontrivial |= used > 1
        return
    G, rows, cb, jb = case["G"], case["rows"], case["cb"], case["jb"]
    n, m = len(cb), len(rows)
    A = np.zeros((m, n + len(jb)))
    for i in range(m):
        A[i, :n] = G[i]
    A[:, n:] = np.array(case["cols"]).T
    want = []
    for v, b in zip(case["cols"], jb):
        r = b[0]
        ra = [i for i in range(m) if rows[i][0] <= r < rows[i][1]]
        ca = [k for k in range(n) if cb[k][0] <= r < cb[k][1]]
        want.append((ra, ca, solvable([[G[i][k] for i in ra] for k in ca],
                                      [v[i] for i in ra], p)))
    ok = all(w[2] for w in want)
    keep = A.copy()
    with sut("gauss_barcodes"):
        try:
            C = gauss_barcodes(A, np.array(rows, dtype=float),
                               np.array(cb + jb, dtype=float), n, p)
        except (RuntimeError, ValueError):
            if ok:
                raise
            ctx.label("refused")
            return
        if not ok:
            raise Violation("a column that cannot be lifted was accepted")
        require(np.array_equal(A, keep), "the input changed")
        C = np.asarray(C)
        require(C.shape == (n, len(jb)), "shape %r", C.shape)
        require(bool(np.all((0 <= C) & (C < p))), "not residues")
        M = ints(C, p) if n else []
        for j, ((ra, ca, _), v) in enumerate(zip(want, case["cols"])):
            used = [k for k in range(n) if M[k][j]]
            require(set(used) <= set(ca), "column %d uses generators that "
                    "are not alive at its birth", j)
            require(bool(ra) or not used, "column %d has coefficients though "
                    "no row is alive", j)
            for i in ra:
                require((v[i] - sum(M[k][j] * G[i][k] for k in used)) % p
                        == 0, "column %d is not the combination of "
                        "generators on row %d", j, i)
            ctx.nontrivial |= len(used) > 1
