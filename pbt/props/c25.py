"""Differentials of the pages, and lifts of first-page classes to a page."""
import numpy as np

from .. import geom
from ..core import bars_of, ints, require, sut
from ..pipeline import mv
from ..reps import Decoder, Signs, total_boundary
from ..total import Span, Total, page_spaces
from .c02 import MIX, valid

RULE = ("a differential of the second or a later page is not zero, or a "
        "lift to a page has a part from its classes and a part from images")
BUDGET = {"quick": {"examples": 1600, "wall": 70},
          "thorough": {"examples": 40000, "wall": 780}}
ASSUMPTIONS = [
    "max_r is not within 5e-7 (relative) of a pairwise distance",
    "only entries whose differentials stay inside the computed rows are "
    "looked at",
]

smaller = geom.smaller


def generate(s, tier):
    c = geom.cloud_case(s, 250 if tier == "quick" else 900, MIX,
                        deep=0 if tier == "quick" else 15)
    c["seed"] = s.int(0, 10 ** 6)
    return c


def classes(ss, dec, page, i, j):
    """(bars, first components of the representatives) of page `page`."""
    if page > 1:
        return bars_of(ss.Hom[page - 1][i][j]), dec.reps(page - 1, i, j)
    bars, reps = [], []
    for k, h in enumerate(ss.Hom[0][i]):
        names = dec.names(i, k, j)
        for c, b in enumerate(bars_of(h[j])):
            bars.append(b)
            x = {}
            for m, v in enumerate(np.asarray(h[j].coordinates)[:, c]):
                if int(v) % ss.p:
                    x[(i, k, names[m][1])] = int(v) * names[m][0] % ss.p
            reps.append([x])
    return bars, reps


def check(case, ctx):
    rng = np.random.default_rng(case.get("seed", 1))
    with sut("create_MV_ss"):
        ss = mv(case)
        T = Total(case, ss.nerve, ss.points_IN)
        signs = Signs(ss, T)
        dec = Decoder(ss)
        no_pages = int(ss.no_pages)
    md, p = case["max_dim"], case["p"]
    tol = 1e-7 * geom.scale_of(geom.points(case))
    jobs = []
    for k in range(1, no_pages):
        for i in range(k, T.columns):
            for j in range(md):
                ti, tj = i - k, j + k - 1
                if tj >= md or i + j > md or not valid(k, i, j, md) \
                        or not valid(k, ti, tj, md):
                    continue
                what = "page %d, differential at column %d, row %d" % (
                    k, i, j)
                with sut(what):
                    src, reps = classes(ss, dec, k, i, j)
                    if not src:
                        continue
                    M = ss.first_differential(i, j) if k == 1 else \
                        ss.high_differential(i, j, k)
                    tgt, treps = classes(ss, dec, k, ti, tj)
                    M = np.asarray(M)
                    if tgt:
                        require(M.shape == (len(src), len(tgt)),
                                "%s: shape %r for %d and %d classes", what,
                                M.shape, len(src), len(tgt))
                        require(bool(np.all((0 <= M) & (M < p))),
                                "%s: not residues", what)
                        M = ints(M, p, what)
                    else:
                        require(not np.any(M), "%s: coefficients but no "
                                "classes", what)
                        M = [[] for _ in src]
                    for c, (a, b) in enumerate(src):
                        z = {x: v for x, v in total_boundary(
                            T, merge(reps[c]), signs).items() if x[0] == ti}
                        for e, q in enumerate(M[c]):
                            if not q:
                                continue
                            require(tgt[e][0] <= a + tol and
                                    a < tgt[e][1],
                                    "%s: a class born at %g is sent to one "
                                    "that lives in [%g, %g)", what, a,
                                    *tgt[e])
                            for x, v in treps[e][0].items():
                                z[x] = (z.get(x, 0) - q * v) % p
                            if k > 1:
                                ctx.nontrivial = True
                                ctx.label("differential of page %d" % k)
                        z = {x: v for x, v in z.items() if v}
                        # trivial differences need no more thought
                        if z:
                            jobs.append((a, k, ti, tj, z, what))
                    if k > 1:
                        again = np.asarray(ss.high_differential(i, j, k))
                        require(not tgt or ints(again, p) == M,
                                "%s: another result when asked again", what)
    verify(T, jobs, md, p, tol, rng)
    with sut("pages"):
        spots = [(K, i, j) for K in range(1, no_pages)
                 for i in range(T.columns) for j in range(md)
                 if i + j <= md and valid(K + 1, i, j, md) and
                 all(int(ss.Hom[k][i][j].dim) for k in range(1, K)) and
                 int(ss.Hom[K][i][j].dim) + int(ss.Im[K][i][j].dim)]
    # later pages, and places with images there, first
    rng.shuffle(spots)
    spots.sort(key=lambda x: (-min(2, x[0]), int(
        ss.Im[x[0]][x[1]][x[2]].dim) == 0))
    for K, i, j in spots[:10] + spots[-4:]:
        lift(ss, T, K, i, j, p, rng, ctx)
    with sut("features"):
        f = geom.features(ss)
    ctx.label("kind:" + case["kind"], *f)


def merge(components):
    z = {}
    for x in components:
        z.update(x)
    return z


def verify(T, jobs, md, p, tol, rng):
    """Every difference is trivial in its page at its radius."""
    jobs.sort(key=lambda x: (x[0], x[1]))
    local(T, [x for x in jobs if x[1] == 1], p, tol)
    jobs = [x for x in jobs if x[1] > 1]
    radii = sorted({j[0] for j in jobs})
    if len(radii) > 4:
        radii = sorted(rng.choice(radii, size=4, replace=False).tolist())
    for r in radii:
        els, red = T.reduce(r + tol, md + 1)
        memo = {}
        for a, k, i, j, z, what in jobs:
            if a != r:
                continue
            if (k, i, j) not in memo:
                S = Span(p)
                for v in page_spaces(els, red, k, i, j, p)[1]:
                    S.insert(v)
                memo[(k, i, j)] = S
            require(not memo[(k, i, j)].copy().insert(z), MSG, what, r)


MSG = ("%s: at radius %g the coefficients do not give the boundary of the "
       "representative")


def local(T, jobs, p, tol):
    """First page: differences are boundaries in every cover element."""
    cells = {}
    for x, b in T.birth.items():
        cells.setdefault((x[0], x[1], len(x[2]) - 1), []).append((b, x))
    memo = {}
    for a, _, i, j, z, what in jobs:        # radii ascend
        for k in {x[1] for x in z}:
            if (i, k, j) not in memo:
                memo[(i, k, j)] = Span(p), sorted(
                    cells.get((i, k, j + 1), []), reverse=True)
            S, left = memo[(i, k, j)]
            while left and left[-1][0] <= a + tol:
                t = left.pop()[1][2]
                S.insert({(i, k, t[:m] + t[m + 1:]): (-1) ** m
                          for m in range(len(t))})
            require(not S.copy().insert({
                x: v for x, v in z.items() if x[1] == k}), MSG, what, a)


def alive(B, r):
    return [n for n, (a, b) in enumerate(bars_of(B)) if a <= r < b]


def lift(ss, T, K, i, j, p, rng, ctx):
    """A combination of classes of a page and of images of the differential
    before it, written in the first page, comes back with its coefficients."""
    what = "lift_to_page(%d, %d, %d)" % (i, j, K + 1)
    with sut(what):
        H = [ss.Hom[k][i][j] for k in range(1, K + 1)]
        I = [ss.Im[k][i][j] for k in range(1, K + 1)]
        first = sum(int(h[j].dim) for h in ss.Hom[0][i])
        ends = sorted({x for h in H + I for b in bars_of(h) for x in b})
        n = int(rng.integers(1, 4))
        cols, want_c, want_g, bars = [], [], [], []
        for _ in range(n):
            r = float(ends[int(rng.integers(len(ends)))])
            c = np.zeros(int(H[-1].dim))
            for e in alive(H[-1], r):
                c[e] = rng.integers(0, p)
            v, top = c, True
            for k in range(K - 1, -1, -1):
                g = np.zeros(int(I[k].dim))
                for e in alive(I[k], r):
                    g[e] = rng.integers(0, p) if rng.random() < .7 else 0
                if top:
                    want_c.append(c)
                    want_g.append(g)
                    top = False
                size = int(H[k - 1].dim) if k else first
                w = np.zeros(size)
                if len(v):
                    w = w + np.asarray(H[k].coordinates) @ v
                if len(g):
                    w = w + np.asarray(I[k].coordinates) @ g
                w %= p
                if k:
                    ok = alive(H[k - 1], r)
                    w = np.array([x if m in ok else 0
                                  for m, x in enumerate(w)])
                v = w
            cols.append(v)
            bars.append([r, float(ss.max_r) + 1])
        B = np.array(cols)
        B0 = B.copy()
        C, G = ss.lift_to_page(i, j, K + 1, B, np.array(bars))
        require(np.array_equal(B, B0), "%s changed its input", what)
        for got, want, name in ((C, want_c, "classes"),
                                (G, want_g, "images")):
            want = np.array(want)
            if want.size == 0:
                require(not np.any(got), "%s: coefficients for no %s", what,
                        name)
                continue
            got = np.asarray(got)
            require(got.shape == want.shape, "%s: coefficients of %s of "
                    "shape %r, expected %r", what, name, got.shape,
                    want.shape)
            require(np.array_equal(got, want), "%s: the coefficients of %s "
                    "are %r, expected %r", what, name, got.tolist(),
                    want.tolist())
        if np.any(want_c) and np.any(np.array(want_g)):
            ctx.nontrivial = True
            ctx.label("lift to page %d" % (K + 1))
