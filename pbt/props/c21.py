"""The barcode depends on the metric space only, not on how it is presented
or covered."""
import numpy as np

from .. import geom
from ..core import Snap, require, same_bars, sut
from ..pipeline import mv, mv_bars

RULE = ("the transformation changes the input, and there is a bar in "
        "positive dimension")
BUDGET = {"quick": {"examples": 1200, "wall": 35},
          "thorough": {"examples": 40000, "wall": 780}}
ASSUMPTIONS = [
    "the overlap is at least max_r, so that the cover resolves the complex",
    "max_r is not within 5e-7 (relative) of a pairwise distance",
]
MIX = ["label"] * 5 + ["octa"] * 3 + ["slab"] * 3 + [
    "lat2", "lat2", "susp", "ring", "rings", "rings", "thin", "uni2", "line",
    "lat3", "cubes", "flat"]

smaller = None


def generate(s, tier):
    c = geom.cloud_case(s, 250 if tier == "quick" else 1200, MIX,
                        shuffle=False)
    c["do"] = s.pick(["permute", "permute", "move", "cover", "cover", "cover",
                      "radius", "dim", "scale", "prime", "pad"])
    c["perm"] = s.perm(len(c["X"]))
    c["axes"] = s.perm(len(c["X"][0]))
    c["flip"] = [s.chance(50) for _ in c["X"][0]]
    c["shift"] = [s.pick([0, 1, -3, .5, 7]) for _ in c["X"][0]]
    c["pow"] = s.pick([-3, -1, 1, 2, 5, 30, -30])
    c["div2"] = s.pick([1, 1, 2, 3, 4])
    c["mult"] = s.pick([1, 1.02, 1.5, 2.2])
    c["cut"] = s.int(0, 999)
    c["p2"] = s.pick(geom.PRIMES)
    return c


def check(case, ctx):
    X = geom.points(case)
    do = case["do"]
    tol = 1e-9
    two = dict(case)
    Y = X
    f = 1.0
    if do == "permute":
        Y = X[case["perm"]]
    elif do == "move":
        Y = X.astype(float)[:, case["axes"]]
        Y = Y * np.where(case["flip"], -1.0, 1.0) + np.array(
            case["shift"]) * geom.scale_of(X)
        tol = 1e-8
    elif do == "pad":
        # one more coordinate, the same for all points
        Y = np.hstack([X, np.full((len(X), 1), 3, dtype=X.dtype)])
        if Y.shape[1] > 3:
            return
    elif do == "cover":
        d = case["div2"]
        while d > 1 and not (geom.cover_ok(X, d) and geom.cost(
                X, case["max_r"], case["max_dim"], d,
                case["max_r"] * case["mult"], 600) < 600):
            d -= 1
        two.update(max_div=d, overlap=case["max_r"] * case["mult"])
    elif do == "radius":
        _, mids = geom.gaps(X)
        mids = [m for m in mids if m < case["max_r"]]
        if not mids:
            return
        two.update(max_r=mids[case["cut"] * len(mids) // 1000])
    elif do == "dim":
        if case["max_dim"] < 2:
            return
        two.update(max_dim=case["max_dim"] - 1)
    elif do == "scale":
        f = 2.0 ** case["pow"]
        Y = X * f
        two.update(max_r=case["max_r"] * f, overlap=case["overlap"] * f)
    elif do == "prime":
        two.update(p=case["p2"])
    snap0 = geom.snap_for(case)
    snap = Snap(snap0.vals + [two["max_r"] / f], tol * geom.scale_of(X)
                * (1 if do != "move" else 2 + max(map(abs, case["shift"]))))
    with sut("create_MV_ss"):
        a = mv_bars(mv(case, X.copy()), case)
    with sut("create_MV_ss after " + do):
        b = mv_bars(mv(two, Y.copy()), two)
        dims = min(case["max_dim"], two["max_dim"])
        if do == "prime":
            dims = 1
        for d in range(dims):
            w = a[d]
            if do == "radius":
                r = two["max_r"]
                w = [(x, min(y, r)) for x, y in w if x < r]
            got = [(x / f, y / f) for x, y in b[d]]
            same_bars(got, w, snap, "%s, dimension %d" % (do, d))
    ctx.label("kind:" + case["kind"], "do:" + do)
    ctx.nontrivial = any(a[1:]) and (do != "permute" or
                                     case["perm"] != sorted(case["perm"]))
    require(len(a) == case["max_dim"], "wrong number of dimensions")
