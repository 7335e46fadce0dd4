"""The cover of a point cloud by overlapping hypercubes."""
import itertools
import math

import numpy as np

from .. import geom, oracle as O
from ..core import require, sut

RULE = "two cover elements share points and differ"
BUDGET = {"quick": {"examples": 6000, "wall": 20},
          "thorough": {"examples": 150000, "wall": 600}}
ASSUMPTIONS = ["the overlap is positive, or all the coordinates, the side and "
               "the overlap are multiples of a power of two"]


def generate(s, tier):
    kind = s.pick(["int", "half", "real", "real", "flat", "huge", "tiny",
                   "exact", "exact"])
    if kind == "exact":
        return exact(s)
    dim = s.pick([1, 2, 2, 3, 4]) if kind == "flat" else s.pick([1, 2, 2, 3])
    n = s.int(1, 12) if s.chance(95) else s.int(13, 40)
    if kind in ("int", "half"):
        X = [[s.int(-6, 6) for _ in range(dim)] for _ in range(n)]
        if kind == "half":
            X = [[v / 2 + 0.1 for v in x] for x in X]
    elif kind == "flat":
        f = [s.chance(60) for _ in range(dim)]
        X = [[7 if f[k] else s.int(-3, 3) for k in range(dim)]
             for _ in range(n)]
        if s.chance(50):
            X = [[float(v) for v in x] for x in X]
    else:
        L = [s.pick([1, 1, 2, 5]) for _ in range(dim)]
        X = [[s.frac(-1, 1) * L[k] for k in range(dim)] for _ in range(n)]
        if kind == "huge":
            f = s.pick([1000, 1e9])
            X = [[v * f + 5 * f for v in x] for x in X]
        elif kind == "tiny":
            f = s.pick([1e-3, 2.0 ** -40])
            X = [[v * f for v in x] for x in X]
    max_div = s.int(1, 6)
    while not geom.cover_ok(X, max_div):
        max_div -= 1
    ext = max(max(c) - min(c) for c in zip(*X)) or 1
    ov = s.pick([.05, .1, .3, .5, 1, 1.5]) * ext
    if s.chance(30):
        ov = s.pick([1, 2, .5]) * ext / max_div
    return {"kind": kind, "X": X, "max_div": max_div, "overlap": float(ov)}


def exact(s):
    """Everything is a multiple of 1/8, so that there is no rounding and
    points on the boundary of a cover element belong to it."""
    dim = s.pick([1, 2, 2, 3])
    u = s.pick([1, .5, .25])
    max_div = s.pick([1, 2, 4])
    X = [[s.int(-4, 4) * u for _ in range(dim)] for _ in range(s.int(1, 12))]
    while not geom.cover_ok(X, max_div):
        max_div //= 2
    return {"kind": "exact", "X": X, "max_div": max_div,
            "overlap": float(s.pick([0, 0, 1, 2, 3, 4]) * u)}


def expected(XF, md, ov):
    """Point sets of the cover elements, without rounding."""
    lo, hi = XF.min(axis=0), XF.max(axis=0)
    side = float((hi - lo).max()) / md
    div = [math.ceil(e / side) if e > 0 else 1 for e in hi - lo]
    out = []
    for pos in itertools.product(*[range(d) for d in div]):
        a = lo + side * np.array(pos) - ov / 2
        b = a + side + ov
        out.append(sorted(np.nonzero(np.all((XF >= a) & (XF <= b),
                                            axis=1))[0].tolist()))
    return sorted(out)


def check(case, ctx):
    from permaviss.covers.cubical_cover import (
        corners_hypercube, generate_cover, intersection_covers)
    X0 = np.array(case["X"])
    n = len(X0)
    md, ov = case["max_div"], case["overlap"]
    XF = X0.astype(float)
    ext = XF.max(axis=0) - XF.min(axis=0)
    side = float(ext.max()) / md
    tol = 1e-9 * geom.scale_of(XF)
    # number of cover elements per coordinate, both values near an integer
    allowed = [1]
    for e in ext:
        if e <= 0:
            opts = {1}
        else:
            q = e / side
            opts = {math.ceil(q - 1e-9) or 1, math.ceil(q + 1e-9)}
        allowed = sorted({a * b for a in allowed for b in opts})
    with sut("generate_cover"):
        X = X0.copy()
        PC, IN, nerve = generate_cover(md, ov, X)
        require(np.array_equal(X, X0), "input changed")
        lo, hi = corners_hypercube(X)
        require(np.array_equal(lo, X0.min(axis=0)) and
                np.array_equal(hi, X0.max(axis=0)), "corners")
        require(len(PC) == len(IN) == len(nerve), "levels differ in number")
        require(int(nerve[0]) == len(IN[0]) == len(PC[0]),
                "number of cover elements")
        require(int(nerve[0]) in allowed,
                "%d cover elements, expected %r", int(nerve[0]), allowed)
        sets = []
        for k in range(len(nerve)):
            sims = [(i,) for i in range(int(nerve[0]))] if k == 0 else [
                tuple(int(v) for v in t) for t in nerve[k]]
            require(len(IN[k]) == len(sims) == len(PC[k]),
                    "level %d: %d regions for %d nerve simplices", k,
                    len(IN[k]), len(sims))
            for t, ids, pts in zip(sims, IN[k], PC[k]):
                ids = [int(i) for i in ids]
                require(len(set(ids)) == len(ids) and all(
                    0 <= i < n for i in ids), "identification numbers %r",
                    ids)
                require(len(pts) == len(ids) and all(
                    np.array_equal(X0[i], q) for i, q in zip(ids, pts)),
                    "coordinates do not belong to the identification numbers")
                if k == 0:
                    sets.append(frozenset(ids))
                else:
                    w = frozenset.intersection(*[sets[v] for v in t])
                    require(set(ids) == w, "region of %r holds %r, expected "
                            "the intersection %r", t, ids, sorted(w))
                    # a region lists its points in the order of the elements
                    if k == 1:
                        require(sorted(int(i) for i in intersection_covers(
                            IN[0], np.array(t))) == sorted(w),
                            "intersection_covers")
        require(frozenset().union(*sets) == frozenset(range(n)),
                "points %r are in no cover element",
                sorted(set(range(n)) - set().union(*sets)))
        if case["kind"] == "exact":
            want = expected(XF, md, ov)
            got = sorted(sorted(S) for S in sets)
            require(got == want, "cover elements hold %r, expected %r", got,
                    want)
        # every element is a box: side plus overlap wide, no points left out
        for S in sets:
            if not S:
                continue
            P = XF[sorted(S)]
            a, b = P.min(axis=0), P.max(axis=0)
            require(bool(np.all(b - a <= side + ov + tol)),
                    "a cover element is wider than side plus overlap")
            for i in range(n):
                if i not in S and bool(np.all((XF[i] >= a) & (XF[i] <= b))):
                    require(False, "point %d lies between points of a cover "
                            "element that does not contain it", i)
        # small sets of points: held by an element; the elements holding one
        # form an acyclic part of the nerve
        groups = [()]
        groups += [(i,) for i in range(n)]
        near = [[bool(np.max(np.abs(XF[i] - XF[j])) <= ov - 4 * tol)
                 for j in range(n)] for i in range(n)]
        D = geom.dist_matrix(XF)
        for k in (2, 3):
            for g in itertools.islice(itertools.combinations(range(n), k),
                                      80):
                if all(near[a][b] for a, b in itertools.combinations(g, 2)):
                    groups.append(g)
        full = tuple(i for i in range(n) if D[0][i] < ov / 2 - 4 * tol)
        groups.append(full)
        done = set()
        for g in groups[1:]:
            hold = frozenset(i for i, S in enumerate(sets) if set(g) <= S)
            require(bool(hold), "points %r of diameter at most the overlap "
                    "are in no common cover element", g)
            if hold in done:
                continue
            done.add(hold)
            acyclic(nerve, hold, g)
    ctx.label(case["kind"])
    if any(e <= 0 for e in ext):
        ctx.label("flat")
    ctx.nontrivial = any(a != b and a & b for a, b in
                         itertools.combinations(sets, 2))


def acyclic(nerve, hold, g):
    if len(hold) > 9:
        return
    levels = [{(v,): 0.0 for v in sorted(hold)}]
    for t in nerve[1:]:
        lev = {}
        for u in t:
            u = tuple(int(v) for v in u)
            if set(u) <= hold:
                lev[u] = 0.0
        levels.append(lev)
    for d in range(1, len(levels)):
        for t in levels[d]:
            for k in range(len(t)):
                require(t[:k] + t[k + 1:] in levels[d - 1],
                        "the nerve is not closed under faces")
    b = O.betti_at(levels, 0.0, 2)
    require(b[0] == 1 and not any(b[1:]), "the cover elements that hold the "
            "points %r span a part of the nerve with Betti numbers %r", g, b)
