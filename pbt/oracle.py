"""Slow, obviously-correct reference implementations.

Nothing in this file imports the code under test.  Everything is exact
arithmetic on Python integers modulo a prime.
"""
import itertools


# ---------------------------------------------------------------- field F_p
def is_prime(n):
    if n < 2:
        return False
    k = 2
    while k * k <= n:
        if n % k == 0:
            return False
        k += 1
    return True


def inv(a, p):
    return pow(int(a) % p, p - 2, p)


def rank(rows, p):
    """Rank of a list of rows (each a list of ints) over F_p."""
    rows = [[x % p for x in r] for r in rows]
    if not rows:
        return 0
    ncol = len(rows[0])
    rk = 0
    for c in range(ncol):
        piv = None
        for i in range(rk, len(rows)):
            if rows[i][c]:
                piv = i
                break
        if piv is None:
            continue
        rows[rk], rows[piv] = rows[piv], rows[rk]
        pr = rows[rk]
        iv = inv(pr[c], p)
        for i in range(rk + 1, len(rows)):
            f = rows[i][c] * iv % p
            if f:
                ri = rows[i]
                for k in range(c, ncol):
                    ri[k] = (ri[k] - f * pr[k]) % p
        rk += 1
        if rk == len(rows):
            break
    return rk


def nullspace(rows, ncol, p):
    """Basis (list of vectors of length ncol) of {x : rows . x = 0}."""
    rows = [[x % p for x in r] for r in rows]
    pivots = []
    rk = 0
    for c in range(ncol):
        piv = None
        for i in range(rk, len(rows)):
            if rows[i][c]:
                piv = i
                break
        if piv is None:
            continue
        rows[rk], rows[piv] = rows[piv], rows[rk]
        iv = inv(rows[rk][c], p)
        rows[rk] = [x * iv % p for x in rows[rk]]
        for i in range(len(rows)):
            if i != rk and rows[i][c]:
                f = rows[i][c]
                rows[i] = [(x - f * y) % p for x, y in zip(rows[i], rows[rk])]
        pivots.append(c)
        rk += 1
        if rk == len(rows):
            break
    free = [c for c in range(ncol) if c not in set(pivots)]
    out = []
    for f in free:
        v = [0] * ncol
        v[f] = 1
        for i, c in enumerate(pivots):
            v[c] = -rows[i][f] % p
        out.append(v)
    return out


def transpose(rows, ncol):
    return [[r[c] for r in rows] for c in range(ncol)]


def matmul(A, B, p):
    """A: list of rows, B: list of rows."""
    if not A:
        return []
    if not B:
        return [[] for _ in A]
    nb = len(B[0])
    return [[sum(a * B[k][j] for k, a in enumerate(r)) % p
             for j in range(nb)] for r in A]


def matvec(A, v, p):
    return [sum(a * b for a, b in zip(r, v)) % p for r in A]


# --------------------------------------------------------- barcode from rank
def barcode_from_ranks(values, rk):
    """values: sorted distinct critical radii; rk(i, j) for i <= j is the rank
    of the structure map M(values[i]) -> M(values[j]).  The module is zero
    before values[0] and M is constant on [values[i], values[i+1]); whatever
    is alive at the last value is reported with death None.
    """
    m = len(values)
    cache = {}

    def r(i, j):
        if i < 0:
            return 0
        if (i, j) not in cache:
            cache[(i, j)] = rk(i, j)
        return cache[(i, j)]
    bars = []
    for i in range(m):
        for j in range(i + 1, m):
            mult = r(i, j - 1) - r(i - 1, j - 1) - r(i, j) + r(i - 1, j)
            assert mult >= 0, "oracle produced a negative multiplicity"
            bars += [(values[i], values[j])] * mult
        mult = r(i, m - 1) - r(i - 1, m - 1)
        assert mult >= 0
        bars += [(values[i], None)] * mult
    return sorted(bars, key=lambda b: (b[0], b[1] is None, b[1] or 0))


def active(bars, r):
    return [k for k, (b, d) in enumerate(bars) if b <= r < d]


def image_kernel_barcodes(A, B, F, p):
    """Barcodes of image and kernel of the persistence morphism F: A -> B.

    A, B lists of (birth, death); F list of rows (len(B) x len(A)).
    """
    vals = sorted({x for bar in list(A) + list(B) for x in bar})
    actA = [active(A, r) for r in vals]
    actB = [active(B, r) for r in vals]

    def rk_im(i, j):
        common = [b for b in actB[i] if b in set(actB[j])]
        return rank([[F[b][a] for a in actA[i]] for b in common], p) \
            if actA[i] else 0

    ker = []
    for i in range(len(vals)):
        if not actA[i]:
            ker.append([])
            continue
        M = [[F[b][a] for a in actA[i]] for b in actB[i]]
        ker.append(nullspace(M, len(actA[i]), p))

    def rk_ker(i, j):
        keep = [k for k, a in enumerate(actA[i]) if a in set(actA[j])]
        return rank([[v[k] for k in keep] for v in ker[i]], p) \
            if keep and ker[i] else 0

    return (barcode_from_ranks(vals, rk_im), barcode_from_ranks(vals, rk_ker))


def complex_homology_barcodes(bases, D, p):
    """Homology barcodes of a complex of tame persistence modules.

    bases[d] = list of bars; D[d] = rows of bases[d] -> bases[d-1], d >= 1.
    """
    vals = sorted({x for bs in bases for bar in bs for x in bar})
    if not vals:
        return [[] for _ in bases]
    act = [[active(bs, r) for r in vals] for bs in bases]
    out = []
    n = len(bases)
    for d in range(n):
        Z, Bd = [], []
        for i in range(len(vals)):
            a = act[d][i]
            if d == 0 or not bases[d - 1] or not a:
                z = [[1 if k == l else 0 for k in range(len(a))]
                     for l in range(len(a))]
            else:
                M = [[D[d][b][k] for k in a] for b in act[d - 1][i]]
                z = nullspace(M, len(a), p)
            Z.append(z)
            if d == n - 1 or not bases[d + 1] or not a:
                Bd.append([])
            else:
                Bd.append([[D[d + 1][k][c] for k in a]
                           for c in act[d + 1][i]])
        bdim = [rank(x, p) if x else 0 for x in Bd]

        def rk(i, j):
            ai, aj = act[d][i], act[d][j]
            pos = {k: t for t, k in enumerate(ai)}
            if not aj:
                return 0
            proj = [[v[pos[k]] if k in pos else 0 for k in aj] for v in Z[i]]
            return rank(proj + Bd[j], p) - bdim[j] if proj or Bd[j] else 0
        out.append(barcode_from_ranks(vals, rk))
    return out


def glued_module_barcode(bars, ext, p):
    """Module presented by generators g_i (born at bars[i][0]) and relations
    (at radius bars[i][1])  g_i = sum_j ext[j][i] g_j.
    """
    vals = sorted({x for bar in bars for x in bar})
    n = len(bars)
    rel = []
    for r in vals:
        rel.append([[(1 if j == i else 0) - ext[j][i] for j in range(n)]
                    for i in range(n) if bars[i][1] <= r])
    reld = [rank(x, p) if x else 0 for x in rel]

    def rk(i, j):
        gens = [[1 if k == g else 0 for k in range(n)]
                for g in range(n) if bars[g][0] <= vals[i]]
        if not gens:
            return 0
        return rank(gens + rel[j], p) - reld[j]
    return barcode_from_ranks(vals, rk)


# ------------------------------------------------------- simplicial complexes
def cliques(n, adj, max_dim):
    """List L with L[d] = sorted list of d-simplices (tuples) for d<=max_dim."""
    out = [[(v,) for v in range(n)]]
    for d in range(1, max_dim + 1):
        nxt = []
        for s in out[-1]:
            for v in range(s[-1] + 1, n):
                if all(adj(u, v) for u in s):
                    nxt.append(s + (v,))
        out.append(nxt)
    return out


def rips(Dist, max_r, max_dim):
    """dict simplex -> diameter, all simplices of diameter < max_r."""
    n = len(Dist)
    L = cliques(n, lambda u, v: Dist[u][v] < max_r, max_dim)
    out = []
    for lev in L:
        out.append({s: max([0.0] + [float(Dist[u][v]) for u, v in
                                    itertools.combinations(s, 2)])
                    for s in lev})
    return out


def filtered_homology(levels, max_r, p):
    """Persistent homology of a filtered simplicial complex.

    levels[d] = dict simplex(tuple of sorted vertices) -> birth radius.
    Returns list over d of sorted lists of (birth, death) with
    birth < death; classes that never die get death max_r.  Textbook column
    reduction of the full boundary matrix (no clearing, no twist).
    """
    order = []
    for d, lev in enumerate(levels):
        for s, r in lev.items():
            order.append((r, d, s))
    order.sort()
    index = {s: i for i, (_, _, s) in enumerate(order)}
    low = {}
    cols = {}
    paired = set()
    bars = [[] for _ in levels]
    births = []
    for j, (r, d, s) in enumerate(order):
        col = {}
        if d > 0:
            for k in range(len(s)):
                f = s[:k] + s[k + 1:]
                c = (-1) ** k % p
                if c:
                    col[index[f]] = c
        while col:
            piv = max(col)
            if piv not in low:
                break
            other = cols[low[piv]]
            q = col[piv] * inv(other[piv], p) % p
            for i, c in other.items():
                v = (col.get(i, 0) - q * c) % p
                if v:
                    col[i] = v
                else:
                    col.pop(i, None)
        if col:
            piv = max(col)
            low[piv] = j
            cols[j] = col
            paired.add(piv)
            b = order[piv][0]
            if b < r:
                bars[d - 1].append((b, r))
        else:
            births.append(j)
    for j in births:
        if j not in paired:
            r, d, _ = order[j]
            if r < max_r:
                bars[d].append((r, max_r))
    return [sorted(b) for b in bars]


def betti_at(levels, r, p):
    """Betti numbers of the subcomplex of simplices with birth <= r."""
    sub = [sorted(s for s, b in lev.items() if b <= r) for lev in levels]
    rks = [0]
    for d in range(1, len(sub)):
        idx = {s: i for i, s in enumerate(sub[d - 1])}
        rows = []
        for s in sub[d]:
            row = [0] * len(idx)
            for k in range(len(s)):
                row[idx[s[:k] + s[k + 1:]]] = (-1) ** k % p
            rows.append(row)
        rks.append(rank(rows, p) if rows else 0)
    rks.append(0)
    return [len(sub[d]) - rks[d] - rks[d + 1] for d in range(len(sub))]
