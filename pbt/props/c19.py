"""Sample point clouds."""
import math

import numpy as np

from ..core import require, sut, Violation
from .. import geom

RULE = "at least three points are returned"
BUDGET = {"quick": {"examples": 60000, "wall": 12},
          "thorough": {"examples": 200000, "wall": 300}}
ASSUMPTIONS = ["spread over all directions is only demanded of samples of "
               "400 points, where chance cannot break it"]


def generate(s, tier):
    fn = s.pick(["circle", "random_circle", "ball", "sphere", "cube", "grid",
                 "grid3", "torus", "sample", "sample", "sample", "first"])
    c = {"fn": fn, "seed": s.pick([0, 0, s.int(1, 10 ** 6)]),
         "n": s.pick([0, 1, 2, 3, s.int(4, 30), 400]),
         "r": s.pick([1, 2.5, .25, 10]), "eps": s.pick([0, .1, .5, 1]),
         "dim": s.pick([1, 2, 3, 4, 4]),
         "center": [s.frac(-5, 5), s.frac(-5, 5)],
         "div": [s.int(0, 5) for _ in range(3)],
         "R": s.pick([.5, 1, 3, 7.25]), "default": s.chance(30)}
    if fn == "ball" and s.chance(40):
        c["dim"] = s.int(5, 9)      # where corners of the cube stick out
        c["n"] = s.pick([20, 60])
    if fn in ("sample", "first"):
        kind = s.pick(["uni", "lat", "dup"])
        m = s.int(1, 14) if s.chance(95) else s.int(15, 60)
        dim = s.int(1, 3)
        c["X"] = [[(s.frac(-1, 1) if kind == "uni" else float(
            s.int(0, 3 if kind == "lat" else 1)))
            for _ in range(dim)] for _ in range(m)]
        u = s.pick([1, 1, 1, 1, 1e-7, 1e5])
        if u != 1:
            c["X"] = [[v * u for v in x] for x in c["X"]]
        elif kind != "uni" and s.chance(30):
            c["X"] = [[int(v) for v in x] for x in c["X"]]
        c["k"] = s.int(1, m + 2)
    return c


def sub_multiset(S, X, what):
    left = [tuple(x) for x in X.tolist()]
    for x in S.tolist():
        require(tuple(x) in left, "%s: %r is not one of the given points (or "
                "is taken too often)", what, x)
        left.remove(tuple(x))


def spread(P, what):
    """Every orthant is met."""
    d = P.shape[1]
    seen = {tuple(v) for v in (P > 0).tolist()}
    require(len(seen) == 2 ** d, "%s: 400 points meet %d of %d orthants",
            what, len(seen), 2 ** d)


def near(a, b, scale=1.0):
    return bool(np.all(np.abs(np.asarray(a) - b) <= 1e-9 * max(scale, 1)))


def check(case, ctx):
    from permaviss.sample_point_clouds import examples as E
    fn, n, r, d = case["fn"], case["n"], case["r"], case["dim"]
    c = np.array(case["center"])
    again = {"ball": lambda: E.ball(n, r, d),
             "sphere": lambda: E.random_sphere(n, r, d),
             "cube": lambda: E.random_cube(n, d)}.get(fn)
    if again:
        with sut(fn):
            np.random.seed(case["seed"])
            P = again()
            np.random.seed(case["seed"])
            require(np.array_equal(P, again()),
                    "the same seed gives other points")
    np.random.seed(case["seed"] + 1)
    with sut(fn):
        if fn == "circle":
            P = E.circle(n, r) if n else np.zeros((0, 2))
            want = np.array([[r * math.cos(2 * math.pi * k / n),
                              r * math.sin(2 * math.pi * k / n)]
                             for k in range(n)]).reshape(n, 2)
            require(P.shape == (n, 2), "shape %r", P.shape)
            require(near(P, want, r), "not %d equally spaced points on the "
                    "circle of radius %r", n, r)
        elif fn == "random_circle":
            a = [n, r, case["eps"]]
            if not case["default"]:
                a.append(case["center"])
            else:
                c = np.zeros(2)
            P = E.random_circle(*a, seed=case["seed"])
            np.random.seed(case["seed"] + 99)
            Q = E.random_circle(*a, seed=case["seed"])
            require(np.array_equal(P, Q), "the same seed gives other points")
            require(n == 0 or P.shape == (n, 2), "shape %r", P.shape)
            if n:
                rad = np.linalg.norm(P - c, axis=1)
                require(bool(np.all(rad >= r * (1 - 1e-9))) and bool(np.all(
                    rad <= r * (1 + case["eps"]) * (1 + 1e-9))),
                    "a point is outside the annulus")
            if n == 400:
                spread(P - c, fn)
                if case["eps"]:
                    require(bool(rad.max() > r * (1 + .7 * case["eps"])) and
                            bool(rad.min() < r * (1 + .3 * case["eps"])),
                            "the noise does not fill the annulus")
                other = E.random_circle(*a, seed=case["seed"] + 1)
                require(not np.array_equal(P, other),
                        "the seed makes no difference")
        elif fn == "ball":
            P = E.ball(n, r, d)
            require(n == 0 or P.shape == (n, d), "shape %r", P.shape)
            if n:
                require(bool(np.all(np.linalg.norm(P, axis=1) < r)),
                        "a point is outside the ball")
            if n == 400:
                spread(P, fn)
                require(len(set(map(tuple, P.tolist()))) == n,
                        "points are repeated")
                require(bool(np.abs(P).max() > r / 4), "points cluster at "
                        "the centre")
        elif fn == "sphere":
            P = E.random_sphere(n, r, d)
            require(n == 0 or P.shape == (n, d), "shape %r", P.shape)
            if n:
                require(near(np.linalg.norm(P, axis=1), r, r),
                        "a point is not at distance %r of the origin", r)
            if n == 400:
                spread(P, fn)
        elif fn == "cube":
            P = E.random_cube(n, d)
            require(n == 0 or P.shape == (n, d), "shape %r", P.shape)
            if n:
                require(bool(np.all(np.abs(P) <= .5)), "outside the cube")
            if n == 400:
                spread(P, fn)
                require(bool(np.all(P.max(axis=0) > .4)) and bool(
                    np.all(P.min(axis=0) < -.4)), "does not fill the cube")
        elif fn in ("grid", "grid3"):
            dv = case["div"][:2 if fn == "grid" else 3]
            P = E.grid(*dv) if fn == "grid" else E.grid_tridimensional(*dv)
            m = int(np.prod(dv))
            want = np.array([[i - (dv[k] - 1) / 2 for k, i in enumerate(q)]
                             for q in np.ndindex(*dv)])
            require(len(P) == m, "%d points, expected %d", len(P), m)
            if m:
                require(sorted(map(tuple, P.tolist())) ==
                        sorted(map(tuple, want.tolist())),
                        "not the nodes of the grid centred at the origin")
        elif fn == "torus":
            R = case["R"]
            if r > R:
                try:
                    E.torus3D(max(n, 1), r, R)
                except ValueError:
                    return
                raise Violation("a torus of radii %r > %r was accepted"
                                % (r, R))
            if case["default"]:
                P, r, R = E.torus3D(n), 1, 3
            else:
                P = E.torus3D(n, r, R)
            require(n == 0 or P.shape == (n, 3), "shape %r", P.shape)
            if n:
                rho = np.linalg.norm(P[:, :2], axis=1)
                require(near((rho - R) ** 2 + P[:, 2] ** 2, r * r, R * R),
                        "a point is not on the torus")
            if n == 400:
                spread(P, fn)
                require(bool(rho.max() > R + .8 * r) and
                        bool(rho.min() < R - .8 * r), "a part is missing")
        elif fn == "sample":
            X = np.array(case["X"])
            keep = X.copy()
            P = E.take_sample(X, case["k"], seed=case["seed"])
            np.random.seed(case["seed"] + 99)
            Q = E.take_sample(X, case["k"], seed=case["seed"])
            require(np.array_equal(P, Q), "the same seed gives other points")
            require(np.array_equal(X, keep), "the point cloud changed")
            m = min(case["k"], len(X))
            require(len(P) == m, "%d points, expected %d", len(P), m)
            sub_multiset(P, X, fn)
            D = geom.dist_matrix(np.vstack([P, X]))
            for k in range(1, m):
                far = D[m:, :k].min(axis=1).max()
                require(D[k, :k].min() >= far - 1e-9 * geom.scale_of(X),
                        "point %d is at distance %g of the points taken "
                        "before, there is one at distance %g", k,
                        D[k, :k].min(), far)
        else:
            X = np.array(sorted(set(map(tuple, case["X"]))))
            first = {tuple(E.take_sample(X, 1, seed=case["seed"] + k)[0])
                     for k in range(40 * len(X))} if len(X) < 6 else None
            if first is not None:
                require(len(first) == len(X), "of %d points only %d can be "
                        "the first one", len(X), len(first))
            P = X
    ctx.label("fn:" + fn)
    ctx.nontrivial = len(P) >= 3
