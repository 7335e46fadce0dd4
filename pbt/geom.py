"""Point clouds, covers and radii, and the reference values computed on them.

Nothing here calls the code under test.  Distances come from scipy, exactly
as in the code under test, so that rounding cannot tell the two apart.
"""
import itertools
import json
import math
import os

import numpy as np
import scipy.optimize
import scipy.spatial.distance as sdist

from . import oracle as O
from .core import Snap

PRIMES = [2, 3, 5, 7] * 6 + [31, 1009, 65521]


def dist_matrix(X):
    X = np.asarray(X, dtype=float)
    if len(X) < 2:
        return np.zeros((len(X), len(X)))
    return sdist.squareform(sdist.pdist(X))


def scale_of(X):
    X = np.asarray(X, dtype=float)
    return (float(np.max(np.abs(X))) if X.size else 0) or 1.0


def distinct(values, tol):
    out = []
    for v in sorted(values):
        if not out or v - out[-1] > tol:
            out.append(float(v))
    return out


def gaps(X):
    """Distinct pairwise distances and usable values of max_r: the middle of
    every gap between two of them that is wide compared with rounding."""
    D = dist_matrix(X)
    s = scale_of(X)
    vals = distinct([0.0] + [D[i, j] for i in range(len(D))
                             for j in range(i)], 1e-9 * s)
    mids = []
    for a, b in zip(vals, vals[1:]):
        if b - a > 1e-6 * s:
            mids.append((a + b) / 2)
    mids.append(vals[-1] + 0.25 * max(vals[-1], s))
    return vals, mids


# ---------------------------------------------------------------- the cover
def divisions(X, max_div):
    X = np.asarray(X, dtype=float)
    ext = X.max(axis=0) - X.min(axis=0)
    side = float(ext.max()) / max_div
    return [1 if e <= 0 else max(1, math.ceil(e / side)) for e in ext], side


def cover_ok(X, max_div):
    div, _ = divisions(X, max_div)
    axes = sum(d > 1 for d in div)
    m = 1
    for d in div:
        m *= max(d - 1, 1)
    return axes <= 3 and m <= (2 if axes == 3 else 12)


def nerve_sets(X, max_div, overlap):
    """Number of points sets per nerve simplex (with multiplicity), for cost
    estimates only."""
    X = np.asarray(X, dtype=float)
    div, side = divisions(X, max_div)
    lo = X.min(axis=0)
    cubes = {}
    for pos in itertools.product(*[range(d) for d in div]):
        a = lo + side * np.array(pos) - overlap / 2
        b = a + side + overlap
        cubes[pos] = frozenset(
            np.nonzero(np.all((X >= a) & (X <= b), axis=1))[0].tolist())
    out = []
    keys = sorted(cubes)

    def grow(inter, chosen, start):
        out.append(inter)
        if len(out) > 4000:
            return
        for k in range(start, len(keys)):
            if all(max(abs(a - b) for a, b in zip(keys[k], c)) <= 1
                   for c in chosen):
                grow(inter & cubes[keys[k]], chosen + [keys[k]], k + 1)
    for i, k in enumerate(keys):
        grow(cubes[k], [k], i + 1)
    return out


def cost(X, max_r, max_dim, max_div, overlap, cap):
    D = dist_matrix(X)
    near = D < max_r
    memo = {}
    tot = 0.0
    for S in nerve_sets(X, max_div, overlap):
        if S not in memo:
            def cnt(cands, d):
                c = len(cands)
                if d:
                    for i, v in enumerate(cands):
                        c += cnt([w for w in cands[i + 1:] if near[v, w]],
                                 d - 1)
                        if c > 2000:
                            break
                return c
            memo[S] = cnt(sorted(S), max_dim)
        tot += 0.3 + memo[S] ** 2 / 100.0
        if tot > cap:
            break
    return tot


# ---------------------------------------------------------- kinds of clouds
def _ring(n, r=1.0):
    return [[r * math.cos(2 * math.pi * k / n), r * math.sin(2 * math.pi * k / n)]
            for k in range(n)]


def k_line(s):
    n = s.int(1, 9)
    X = [[s.int(0, 24) / 4] for _ in range(n)]
    return X, s.int(1, 6), None


def k_uni2(s):
    n = s.int(2, 14)
    return [[s.frac(0, 2), s.frac(0, 2)] for _ in range(n)], s.int(1, 4), None


def k_lat2(s):
    n = s.int(3, 16)
    m = s.int(2, 5)
    X = [[float(s.int(0, m)), float(s.int(0, m))] for _ in range(n)]
    if not s.chance(25):
        X = [list(x) for x in sorted(set(map(tuple, X)))]
    return X, s.int(1, 4), None


def k_lat3(s):
    n = s.int(4, 16)
    m = s.int(1, 3)
    X = sorted({tuple(float(s.int(0, m)) for _ in range(3))
                for _ in range(n)})
    return [list(x) for x in X], s.int(1, 3), None


def k_uni3(s):
    n = s.int(5, 18)
    return [[s.frac(0, 1) for _ in range(3)] for _ in range(n)], 2, None


def k_ring(s):
    X = _ring(s.int(4, 12))
    for _ in range(s.int(0, 4)):
        X.append([s.frac(-1, 1), s.frac(-1, 1)])
    return X, s.int(1, 4), None


def k_rings(s):
    X = []
    for _ in range(s.int(2, 3)):
        c = (s.int(0, 3), s.int(0, 3))
        for a, b in _ring(s.int(4, 7)):
            X.append([a + c[0], b + c[1]])
    return X, s.int(1, 4), None


def k_thin(s):
    dim = s.int(2, 4)
    L = s.int(2, 5)
    n = s.int(5, 15)
    X = [[s.frac(0, L)] + [s.frac(0, .8) for _ in range(dim - 1)]
         for _ in range(n)]
    return X, L, None


def k_susp(s):
    """Suspensions of polygons: two-dimensional classes."""
    X = [[a, b, 0.0] for a, b in _ring(s.int(4, 6))]
    h = s.frac(.5, 1.1)
    X += [[0, 0, h], [0, 0, -h]]
    if s.chance(40):
        X += [[a, b, c + 2 * h] for a, b, c in list(X)]
        X = [list(x) for x in sorted({tuple(round(v, 9) for v in y)
                                      for y in X})]
    if s.chance(50):
        X += [[0, 0, 3.0], [0, 0, -3.0]]
    q = s.perm(3)
    return [[x[i] for i in q] for x in X], s.int(1, 3), None


def k_octa(s):
    """Classes that the second differential or an extension moves: poles in
    the middle of a 2x2 cover, an equator spread over the four squares."""
    X = []
    k = s.pick([2, 2, 2, 3])
    h = s.pick([1.0, 1.0, s.frac(.7, 1)])
    for i in range(k):
        X.append([0.0, 0.0, (-.5 + i / (k - 1)) * h])
    for x, y in ((1, 0), (-1, 0), (0, 1), (0, -1)):
        if s.chance(6):
            continue
        m = s.pick([1, 1, 2, 2, 3])
        for q in range(m):
            r = s.frac(.45, .75)
            if m == 1:
                t = s.pick([0.0, s.frac(-.49, .49)])
            else:
                t = (-.48, .48, 0)[q] * s.frac(.7, 1)
            z = s.pick([0.0, 0.0, s.frac(-.25, .25)])
            X.append([x * r + y * t, y * r + x * t, z])
    for x, y in ((1, 1), (-1, 1), (1, -1), (-1, -1)):
        if s.chance(25):
            for _ in range(s.pick([1, 1, 2])):
                X.append([x * s.frac(.3, .8), y * s.frac(.3, .8),
                          s.frac(-.5, .5)])
    j = s.pick([0.0, 0.01, .04, .08])
    if j:
        X = [[v + j * s.frac(-1.5, 1.5, 300) for v in x] for x in X]
    e = 1.0 + 2 * j
    if s.chance(30):
        X += [[-e, s.frac(-1, 1), 0.], [e, s.frac(-1, 1), 0.],
              [s.frac(-1, 1), e, 0.]]
    else:
        X += [[-e, -e, 0.0], [e, e, 0.0]]
    A = np.array(X)
    ext = A.max(axis=0) - A.min(axis=0)
    if ext[2] > max(ext[0], ext[1]) / 2:
        A[:, 2] *= max(ext[0], ext[1]) / 2 / ext[2] * .999
    q = s.perm(3)
    return A[:, q].tolist(), 2, (.85, 1.0)


def k_slab(s):
    """A ring across the boundary of two cover elements and a cone on one
    side: homology on one side only, extensions across."""
    X = []
    for a, b in _ring(4):
        X.append([s.pick([0.0, s.frac(-.2, .2)]), a, b])
    X.append([s.frac(.9, 1.1), 0.0, 0.0])
    for _ in range(s.pick([1, 1, 2])):
        X.append([s.frac(-.9, .9), s.frac(-1.9, 1.9), s.frac(-1.9, 1.9)])
    for _ in range(s.pick([1, 1, 2, 3])):
        X.append([s.frac(-1.9, -.95), s.frac(-1.9, 1.9), s.frac(-1.9, 1.9)])
    m = max(max(abs(x[1]), abs(x[2])) for x in X) * 2.02
    X += [[-m, 0.0, 0.0], [m, 0.0, 0.0]]
    return X, 2, (1.88, 1.92)


def _embed(labels, edges, dim, seed):
    """Points in R^dim whose first coordinates lie in the part of a 2 x 2
    cover that the labels ask for, and whose distances lie in the intervals
    that edges asks for (beyond 1.03 for the other pairs); None if a descent
    from a random start does not find them."""
    n, axes = len(labels), len(labels[0])
    L = np.full((n, n), 1.03)
    H = np.full((n, n), 99.0)
    for (i, j), (a, b) in edges.items():
        L[i, j] = L[j, i] = a
        H[i, j] = H[j, i] = b
    iu = np.triu_indices(n, 1)
    L, H = L[iu], H[iu]
    box = {"0": (-.47, .47), "+": (.53, 1.75), "-": (-1.75, -.53)}
    lo, hi = (np.array([[box[c][e] for c in w] + [(-.85, .85)[e]] *
                        (dim - axes) for w in labels]) for e in (0, 1))
    X = np.random.RandomState(seed).normal(size=(n, dim)) * .4
    X = np.clip(X, lo, hi)

    def loss(x):
        X = x.reshape(n, dim)
        D = X[iu[0]] - X[iu[1]]
        q = np.sqrt((D ** 2).sum(axis=1) + 1e-12)
        e = np.maximum(0, q - H) - np.maximum(0, L - q)
        c = (2 * e / q)[:, None] * D
        out = np.maximum(0, X - hi) - np.maximum(0, lo - X)
        g = 2 * out
        np.add.at(g, iu[0], c)
        np.add.at(g, iu[1], -c)
        return (e ** 2).sum() + (out ** 2).sum(), g.ravel()
    r = scipy.optimize.minimize(loss, X.ravel(), jac=True, method="L-BFGS-B",
                                options={"maxiter": 300})
    return None if r.fun > 1e-9 else np.round(r.x.reshape(n, dim), 4)


def k_label(s):
    """Clouds with prescribed neighbours and prescribed places in a 2 x 2
    cover: two poles in the middle and an equator through the four squares
    (a class in the third column, killed or moved by the second differential
    as edges are dropped), with edges that appear late, arcs between points
    that are not neighbours, and points added beside others."""
    LATE = [(.825, .855), (.865, .895), (.905, .935), (.945, .975)]
    SOON = (.5, .81)
    lab = ["00", "00", "+0", "-0", "0+", "0-"]
    E = {(i, j): SOON for i in range(6) for j in range(i)
         if (j, i) not in ((0, 1), (2, 3), (4, 5))}

    def compat(a, b):
        return all(x == "0" or y == "0" or x == y for x, y in zip(a, b))

    def near(v):
        return sorted({i + j - v for i, j in E if v in (i, j)})

    def put(a, b, t):
        E[max(a, b), min(a, b)] = t
    for _ in range(s.pick([1, 2, 2, 3, 3, 4, 4, 5])):
        m = s.int(0, 99)
        a, b = s.perm(len(lab))[:2]
        a, b = max(a, b), min(a, b)
        v = len(lab)
        if m < 30 and E:
            e = s.pick(sorted(E))
            if s.chance(40):
                del E[e]
            else:
                E[e] = s.pick(LATE)
        elif m < 50 and (a, b) not in E:
            w = "".join(x if x == y else "0" for x, y in zip(lab[a], lab[b]))
            w = s.pick([w, w, "00"])
            lab.append(w)
            t = s.pick(LATE)
            put(a, v, t)
            put(b, v, s.pick([t, s.pick(LATE)]))
            for u in near(a):
                if u != v and u in near(b) and compat(lab[u], w) and \
                        s.chance(30):
                    put(u, v, s.pick(LATE))
        elif m < 65:
            if (a, b) not in E and compat(lab[a], lab[b]):
                put(a, b, s.pick(LATE))
        else:
            w = "".join(s.pick("0+-") if s.chance(25) else c for c in lab[a])
            lab.append(w)
            for u in near(a):
                if compat(lab[u], w) and s.chance(75):
                    put(u, v, SOON if s.chance(50) else s.pick(LATE))
            if s.chance(40) and compat(w, lab[a]):
                put(a, v, s.pick(LATE))
    for dim in s.pick([(3, 4, 5, 5), (4, 5, 6), (5, 6, 6)]):
        X = _embed(lab, E, dim, s.int(0, 10 ** 6))
        if X is not None:
            break
    else:
        return k_octa(s)
    c = [1.8, 1.8] + [0.0] * (dim - 2)
    X = X.tolist() + [c, [-v for v in c]]
    q = s.perm(dim)
    return [[x[i] for i in q] for x in X], 2, (.985, 1.015)


def k_flat(s):
    """Degenerate clouds: flat coordinates, coincident points, one point."""
    dim = s.int(1, 3)
    n = s.int(1, 8)
    flat = [s.chance(60) for _ in range(dim)]
    c = [s.int(-2, 2) for _ in range(dim)]
    X = [[float(c[k] if flat[k] else s.int(-3, 3)) for k in range(dim)]
         for _ in range(n)]
    return X, s.int(1, 3), None


def k_cubes(s):
    X = list(itertools.product((0., 1.), repeat=3))
    d = (s.int(1, 2), s.int(0, 1), 0)
    X += [tuple(a + b for a, b in zip(x, d)) for x in X]
    X = sorted(set(X))
    drop = s.int(0, 4)
    for _ in range(drop):
        X.pop(s.int(0, len(X) - 1))
    return [list(x) for x in X], 2, None


KINDS = {
    "line": k_line, "uni2": k_uni2, "lat2": k_lat2, "lat3": k_lat3,
    "uni3": k_uni3, "ring": k_ring, "rings": k_rings, "thin": k_thin,
    "susp": k_susp, "octa": k_octa, "slab": k_slab, "flat": k_flat,
    "cubes": k_cubes, "label": k_label,
}

MIX = ["label"] * 7 + ["octa"] * 4 + ["slab"] * 3 + ["lat2"] * 2 + [
    "susp", "ring", "rings", "rings", "thin", "uni2", "line",
    "lat3", "uni3", "cubes", "flat"]

SMALL = ["label"] * 3 + ["octa"] * 2 + ["slab"] * 2 + ["lat2", "lat2", "ring", "rings",
                                       "thin", "uni2", "line", "flat"]


def cloud_case(s, cap, mix=MIX, max_dims=None, shuffle=True, primes=PRIMES,
               deep=0):
    """deep: how many cases in a thousand are deep ones."""
    if deep and s.int(0, 999) >= 1000 - deep:
        return deep_case(s, shuffle)
    kind = s.pick(mix)
    X, max_div, window = KINDS[kind](s)
    as_int = False
    if kind in ("line", "lat2", "lat3", "flat", "cubes"):
        if s.chance(20) and all(float(v).is_integer() for x in X for v in x):
            as_int = True
    if kind in ("ring", "rings", "susp", "lat2", "uni2") and s.chance(35):
        j = s.pick([.02, .1])
        X = [[v + j * s.frac(-1, 1) for v in x] for x in X]
        as_int = False
    if shuffle and len(X) > 1 and s.chance(60):
        X = [X[i] for i in s.perm(len(X))]
    if not as_int:
        f = s.pick([1, 1, 1, 4, .25, 3.7])
        if s.chance(8):
            f = s.pick([2.0 ** -40, 1e-6, 2.0 ** 30, 1e5])
        if f != 1:
            X = [[v * f for v in x] for x in X]
        if s.chance(8):
            o = [f * s.pick([0, 10, -1000, .3]) for _ in X[0]]
            X = [[v + w for v, w in zip(x, o)] for x in X]
    else:
        f = 1
    while not cover_ok(X, max_div):
        max_div -= 1
    _, mids = gaps(X)
    if window is not None:
        inside = [m for m in mids if window[0] * f <= m <= window[1] * f]
        if not inside:
            inside = [min(mids, key=lambda m: abs(m - window[1] * f))]
        i = mids.index(s.pick(inside))
    else:
        i = s.int(0, max(0, (3 * len(mids)) // 4))
        if s.chance(10):
            i = len(mids) - 1
    max_dim = s.pick(max_dims or [1, 2, 3, 3, 4])
    if window is not None and max_dims is None:
        max_dim = s.pick([1, 2, 2, 3, 3, 3, 4, 4] if kind == "label" else
                         [1, 2, 2, 3, 3, 3, 3])
    mult = s.pick([1, 1, 1.01, 1.05, 1.3, 2])
    if window is not None:
        mult = s.pick([1, 1, 1.05])
    while i > 0 and cost(X, mids[i], max_dim, max_div, mids[i] * mult,
                         cap) > cap:
        i -= max(1, i // 6)
    max_r = mids[max(i, 0)]
    while max_div > 1 and cost(X, max_r, max_dim, max_div, max_r * mult,
                               cap) > cap:
        max_div -= 1
    return {"kind": kind, "X": [[int(v) if as_int else float(v) for v in x]
                                for x in X],
            "max_r": max_r, "max_dim": max_dim, "max_div": max_div,
            "overlap": max_r * mult, "p": s.pick(primes)}


_DEEP = []


def deep_case(s, shuffle=True):
    """A saved cloud in 4 to 7 dimensions (11 to 22 points, a 2 x 2 or 2 x 2 x 2
    cover) with a non-zero differential on the third page, extensions over two
    columns or the like, moved a little.  Takes some seconds; random clouds of
    affordable size do not reach these."""
    if not _DEEP:
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),
                               "deep.json")) as f:
            _DEEP.extend(json.load(f))
    d = s.pick(_DEEP)
    X = [list(x) for x in d["X"]]
    j = s.pick([0, 0, .001, .004, .01])
    if j:
        X = [[v + j * s.frac(-1, 1) for v in x] for x in X]
    if s.chance(25):
        X.pop(s.int(len(X) // 2, len(X) - 3))
    if shuffle and s.chance(50):
        X = [X[i] for i in s.perm(len(X))]
    f = s.pick([1, 1, 4, .25])
    if f != 1:
        X = [[v * f for v in x] for x in X]
    _, mids = gaps(X)
    r = min(mids, key=lambda m: abs(m - f * d["max_r"]))
    return {"kind": "deep", "X": X, "max_r": r,
            "max_dim": d.get("max_dim", 3), "max_div": 2,
            "overlap": r * s.pick([1, 1, 1.02]), "p": s.pick(PRIMES)}


def points(case):
    return np.array(case["X"])


def snap_for(case):
    X = points(case)
    D = dist_matrix(X)
    s = scale_of(X)
    vals = [0.0, case["max_r"]] + [D[i, j] for i in range(len(D))
                                   for j in range(i)]
    return Snap(vals, 1e-9 * s)


def reference(case):
    """Levels of the Rips complex and its barcodes, dimension < max_dim."""
    X = points(case)
    levels = O.rips(dist_matrix(X), case["max_r"], case["max_dim"])
    bars = O.filtered_homology(levels, case["max_r"], case["p"])
    return levels, bars[:case["max_dim"]]


def features(ss):
    """What the case exercised, from documented attributes."""
    f = set()
    P = np.asarray(ss.page_dim_matrix)
    for k in range(2, len(P) - 1):
        if np.any(P[k] != P[k + 1]):
            f.add("page%d_differential" % k)
    if len(P) > 2 and np.any(P[2][:, 1:]):
        f.add("second_page_off_column_0")
    if len(P) > 2 and np.any(P[2][:, 2:]):
        f.add("second_page_column_2")
    for a in ss.extensions:
        for b in a:
            for k, blk in enumerate(b[1:]):
                if np.any(blk):
                    f.add("extension")
                    if k:
                        f.add("extension_two_steps")
    return f


def smaller(case):
    """Candidates for shrinking a saved case: one point less, or p = 2, or a
    lower dimension."""
    X = case["X"]
    for i in range(len(X)):
        Y = X[:i] + X[i + 1:]
        if not Y:
            continue
        _, mids = gaps(Y)
        s = scale_of(Y)
        vals, _ = gaps(Y)
        if min(abs(v - case["max_r"]) for v in vals) < 5e-7 * s:
            continue
        yield dict(case, X=Y)
    if case["p"] != 2:
        yield dict(case, p=2)
    if case["max_dim"] > 1:
        yield dict(case, max_dim=case["max_dim"] - 1)
