"""Generators for algebra: matrices, bars, morphisms, filtered complexes."""
import itertools

from . import oracle as O

SMALL_PRIMES = [2, 3, 5, 7, 11, 13]
MORE_PRIMES = [2, 3, 5, 7, 11, 13, 17, 31, 101, 257, 1009, 65521]


def matrix(s, m, n, p, density=None):
    if density is None:
        density = s.pick([30, 60, 60, 90])
    rows = []
    for _ in range(m):
        rows.append([s.int(1, p - 1) if s.chance(density) else 0
                     for _ in range(n)])
    return rows


def structured(s, m, n, p):
    """A matrix with planted dependencies between columns."""
    A = matrix(s, m, n, p)
    for j in range(1, n):
        t = s.int(0, 5)
        if t == 0:      # a multiple of an earlier column
            k, c = s.int(0, j - 1), s.int(0, p - 1)
            for r in A:
                r[j] = c * r[k] % p
        elif t == 1:    # a combination of two earlier ones
            k, l = s.int(0, j - 1), s.int(0, j - 1)
            c, e = s.int(0, p - 1), s.int(0, p - 1)
            for r in A:
                r[j] = (c * r[k] + e * r[l]) % p
        elif t == 2:    # same pivot as an earlier one
            k = s.int(0, j - 1)
            nz = [i for i in range(m) if A[i][k]]
            if nz:
                for i in range(nz[-1] + 1, m):
                    A[i][j] = 0
                A[nz[-1]][j] = s.int(1, p - 1)
    return A


def grades(s, m):
    """Radii for the grid 0..m: mostly the integers themselves, otherwise an
    increasing map to other numbers, from 0, with very small and very large
    gaps (all of them exact in floating point)."""
    kind = s.pick(["int"] * 6 + ["tiny", "near", "big", "mixed", "mixed"])
    if kind == "int":
        return list(range(m + 1))
    if kind == "tiny":
        u = s.pick([2.0 ** -40, 2.0 ** -60, 2.0 ** -200])
        return [k * u for k in range(m + 1)]
    if kind == "near":
        u = s.pick([2.0 ** -45, 2.0 ** -52])
        return [0.0] + [1 + k * u for k in range(m)]
    if kind == "big":
        return [k * 2.0 ** 30 + (k % 2) for k in range(m + 1)]
    out = [0.0]
    for _ in range(m):
        out.append(out[-1] + s.pick([1, 1, 2.0 ** -20, 2.0 ** -40, .1, 64]))
    return out


def regrade(g, bars):
    return [[g[a], g[b]] for a, b in bars]


def bar(s, m):
    a = s.int(0, m - 2)
    return [a, s.int(a + 1, m - 1)]


def bars(s, n, m):
    return [bar(s, m) for _ in range(n)]


def hom(I, J):
    """Is there a non-zero morphism from the interval I to the interval J?"""
    return J[0] <= I[0] < J[1] <= I[1]


def morphism(s, A, B, p, density=80):
    return [[s.int(1, p - 1) if hom(a, b) and s.chance(density) else 0
             for a in A] for b in B]


def related_bars(s, A, m, n):
    """Bars that receive morphisms from A with good probability."""
    out = []
    for _ in range(n):
        if A and s.chance(75):
            a = s.pick(A)
            lo = s.int(0, a[0])
            hi = s.int(a[0] + 1, a[1])
            out.append([lo, hi])
        else:
            out.append(bar(s, m))
    return out


def chain_of_modules(s, max_len=4, max_pieces=5):
    """(bases, D, p): a complex of tame persistence modules, as a direct sum
    of elementary pieces followed by automorphisms of each term."""
    p = s.pick([2, 3, 5, 7, 2, 3, 5, 7, 101])
    m = s.pick([4, 7, 10])
    L = s.int(1, max_len)
    bases = [[] for _ in range(L)]
    maps = []

    def target(I):
        return [s.int(0, I[0]), s.int(I[0] + 1, I[1])]
    for _ in range(s.int(1, max_pieces)):
        d = s.int(0, L - 1)
        I = bar(s, m)
        if d == 0 or s.chance(30):
            bases[d].append(I)
            continue
        J = target(I)
        bases[d].append(I)
        bases[d - 1].append(J)
        maps.append((d, len(bases[d - 1]) - 1, len(bases[d]) - 1,
                     s.int(1, p - 1)))
        if d >= 2 and s.chance(60):
            K = target(J)
            if not hom(I, K):
                bases[d - 2].append(K)
                maps.append((d - 1, len(bases[d - 2]) - 1,
                             len(bases[d - 1]) - 1, s.int(1, p - 1)))
    D = [0] + [[[0] * len(bases[d]) for _ in bases[d - 1]]
               for d in range(1, L)]
    for d, j, i, c in maps:
        D[d][j][i] = c

    def mask(d):
        for j in range(len(bases[d - 1])):
            for i in range(len(bases[d])):
                if hom(bases[d][i], bases[d - 1][j]):
                    D[d][j][i] %= p
                else:
                    D[d][j][i] = 0
    for _ in range(s.int(0, 12)):
        d = s.int(0, L - 1)
        n = len(bases[d])
        if n < 2:
            continue
        i = s.int(0, n - 1)
        j = s.int(0, n - 2)
        if j >= i:
            j += 1
        if not hom(bases[d][i], bases[d][j]):
            continue
        c = s.int(1, p - 1)
        # e_i' = e_i + c e_j
        if d >= 1:
            for r in D[d]:
                r[i] += c * r[j]
            mask(d)
        if d + 1 < L:
            D[d + 1][j] = [x - c * y for x, y in zip(D[d + 1][j],
                                                     D[d + 1][i])]
            mask(d + 1)
    return bases, D, p


# ------------------------------------------------------- filtered complexes
RP2 = [(0, 1, 2), (0, 1, 3), (0, 2, 4), (0, 3, 5), (0, 4, 5), (1, 2, 5),
       (1, 3, 4), (1, 4, 5), (2, 3, 4), (2, 3, 5)]
OCTA = [t for t in itertools.combinations(range(6), 3)
        if not ({0, 1} <= set(t) or {2, 3} <= set(t) or {4, 5} <= set(t))]
S3 = list(itertools.combinations(range(5), 4))
MOORE3 = None


def _moore3():
    """A triangulated disc whose boundary wraps three times around a circle
    of three edges: H_1 = Z/3."""
    outer = list(range(9))              # positions on the boundary circle
    lab = {i: i % 3 for i in outer}     # identified to vertices 0, 1, 2
    tri = []
    ring = [3 + i for i in outer]       # inner ring, vertices 3..11
    for i in outer:
        j = (i + 1) % 9
        tri.append((lab[i], lab[j], ring[i]))
        tri.append((lab[j], ring[i], ring[j]))
        tri.append((ring[i], ring[j], 12))
    return [tuple(sorted(t)) for t in tri]


def closure(tops, n):
    S = {(v,) for v in range(n)}
    for t in tops:
        for k in range(1, len(t) + 1):
            S |= set(itertools.combinations(t, k))
    return S


def filtered_complex(s):
    """(levels, p): simplices (as lists) per dimension with birth radii, in a
    valid order; vertices are born at 0."""
    kind = s.pick(["random", "random", "random", "flag", "rp2", "octa", "s3",
                   "moore"])
    p = s.pick([2, 2, 2, 3, 3, 3, 5, 5, 7, 31, 1009, 65521])
    if kind == "random":
        n = s.int(1, 7)
        tops = []
        for _ in range(s.int(0, 8)):
            k = min(n, s.pick([2, 2, 3, 3, 4, 4, 4, 5]))
            if k >= 1:
                tops.append(tuple(sorted(s.perm(n)[:k])))
    elif kind == "flag":
        n = s.int(2, 7)
        tops = []
        adj = {(i, j): s.chance(65) for i in range(n) for j in range(i + 1, n)}
        for k in (2, 3, 4):
            for t in itertools.combinations(range(n), k):
                if all(adj[e] for e in itertools.combinations(t, 2)):
                    tops.append(t)
    elif kind == "rp2":
        n, tops = 6 + s.int(0, 1), list(RP2)
    elif kind == "octa":
        n, tops = 6, list(OCTA)
    elif kind == "s3":
        n, tops = 5, list(S3)
    else:
        n, tops = 13, _moore3()
    S = sorted(closure(tops, n), key=lambda t: (len(t), t))
    if kind in ("rp2", "octa", "s3", "moore"):
        # relabel the vertices, drop a few top simplices
        q = s.perm(n)
        S = sorted({tuple(sorted(q[v] for v in t)) for t in S},
                   key=lambda t: (len(t), t))
        top = max(map(len, S))
        for _ in range(s.pick([0, 0, 1, 2])):
            cand = [t for t in S if len(t) == top]
            if cand:
                S.remove(s.pick(cand))
    grid = s.pick([2, 4, 8, 40])
    birth = {}
    for t in S:
        if len(t) == 1:
            birth[t] = 0
            continue
        low = max(birth[f] for f in itertools.combinations(t, len(t) - 1))
        birth[t] = low if s.chance(35) and low > 0 else low + s.int(
            0 if low else s.pick([0, 1, 1, 1]), grid)
    maxdim = max(map(len, S)) - 1
    maxdim = max(1, maxdim + s.pick([0, 0, 1]) if maxdim < 3 else maxdim)
    g = grades(s, max(birth.values()) + 3)
    levels = []
    for d in range(maxdim + 1):
        lev = [t for t in S if len(t) == d + 1]
        if d:
            q = s.perm(len(lev)) if s.chance(50) else list(range(len(lev)))
            lev = [lev[i] for i in q]
            lev.sort(key=lambda t: birth[t])
        levels.append([[list(t), g[birth[t]]] for t in lev])
    R = g[max(birth.values()) + s.int(1, 3)]
    return {"kind": kind, "levels": levels, "max_r": R, "p": p}


def complex_arrays(case, p=None):
    """(C, R) in the format of the code under test."""
    import numpy as np
    C = [len(case["levels"][0])]
    R = [np.zeros(C[0])]
    for d, lev in enumerate(case["levels"][1:], 1):
        C.append(np.array([t for t, _ in lev], dtype=int).reshape(
            len(lev), d + 1))
        R.append(np.array([b for _, b in lev], dtype=float))
    return C, R


def complex_levels(case):
    return [{tuple(t): float(b) for t, b in lev} for lev in case["levels"]]


def boundary_rows(levels, d, p):
    """Rows of the d-th boundary: one per (d-1)-simplex."""
    idx = {tuple(t): i for i, (t, _) in enumerate(levels[d - 1])}
    M = [[0] * len(levels[d]) for _ in idx]
    for j, (t, _) in enumerate(levels[d]):
        for k in range(len(t)):
            M[idx[tuple(t[:k] + t[k + 1:])]][j] = (-1) ** k % p
    return M


__all__ = [n for n in dir() if not n.startswith("_")]
assert O is not None
