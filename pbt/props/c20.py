"""Results do not depend on schedules, on history, or on other computations;
inputs are not changed."""
import random

import numpy as np

from .. import geom, pools
from ..core import bars_of, require, sut
from ..pipeline import mv

RULE = ("the second page has a class outside column 0, or the persistent "
        "homology a bar in positive dimension")
BUDGET = {"quick": {"examples": 900, "wall": 35},
          "thorough": {"examples": 30000, "wall": 780}}
ASSUMPTIONS = [
    "workers are stand-ins that evaluate items one by one, in a drawn order, "
    "on pickled copies; a few cases use real worker processes",
]
MIX = ["label"] * 3 + ["octa"] * 2 + ["slab"] * 3 + ["lat2", "lat2", "ring", "rings", "susp",
                                     "thin", "uni2", "line", "flat"]

smaller = geom.smaller


def generate(s, tier):
    what = s.pick(["order", "order", "other", "other", "between", "again",
                   "real"])
    if what == "real" and not s.chance(12):
        what = "order"
    cap = 250 if tier == "quick" else 900
    c = geom.cloud_case(s, 60 if what == "real" else cap, MIX,
                        max_dims=[2] if what == "real" else [2, 2, 3])
    c["what"] = what
    c["seed"] = s.int(0, 10 ** 6)
    c["chunk"] = s.pick([0, 1, 1, 2, 3])
    if what in ("other", "between"):
        o = geom.cloud_case(s, 80, MIX, max_dims=[1, 2],
                            primes=[q for q in geom.PRIMES if q != c["p"]])
        c["other"] = o
        c["calls"] = s.int(1, 14)
    return c


def summary(ss, X):
    """What a user can see of the result."""
    out = {"pages": np.asarray(ss.page_dim_matrix).tolist(),
           "bars": [bars_of(b) for b in ss.persistent_homology],
           "p": int(ss.p)}
    last = int(ss.no_pages) - 1
    out["last"] = [[bars_of(b) for b in col] for col in ss.Hom[last]]
    out["ext"] = [[[np.asarray(b).tolist() for b in a] for a in col]
                  for col in ss.extensions]
    out["reps"] = [[[[(list(map(int, r)), np.asarray(c).tolist())
                      for r, c in zip(ch.ref, ch.coord)] for ch in row]
                    for row in col] for col in ss.Hom_reps[last]]
    return out


def differ(a, b, what):
    for k in a:
        require(a[k] == b[k], "%s: %s differ: %s and %s", what, k,
                str(a[k])[:200], str(b[k])[:200])


def order_from(seed):
    rng = random.Random(seed)

    def order(n):
        q = list(range(n))
        rng.shuffle(q)
        return q
    return order


def check(case, ctx):
    X = geom.points(case)
    keep = X.copy()
    np.random.seed(1)
    with sut("create_MV_ss"):
        ss = mv(case, X)
        a = summary(ss, X)
        require(np.array_equal(X, keep) and X.dtype == keep.dtype,
                "the point cloud was changed")
    what = case["what"]
    np.random.seed(case["seed"] % 1000)
    if what == "order":
        pools.SCHED.order = order_from(case["seed"])
        pools.SCHED.chunk = case["chunk"] or None
    elif what == "real":
        pools.SCHED.real = True
    elif what == "other":
        state = {"calls": 0}

        def hook():
            state["calls"] += 1
            if state["calls"] == case["calls"]:
                old = pools.SCHED.hook
                pools.SCHED.hook = None
                mv(case["other"])
                pools.SCHED.hook = old
                ctx.label("interleaved")
        pools.SCHED.hook = hook
    elif what == "between":
        with sut("another computation"):
            mv(case["other"])
            differ(a, summary(ss, X), "the first result after another "
                   "computation")
    try:
        with sut("create_MV_ss again (%s)" % what):
            b = summary(mv(case, X.copy()), X)
            differ(a, b, what)
            require(np.array_equal(X, keep), "the point cloud was changed")
    finally:
        pools.reset()
    f = geom.features(ss)
    ctx.label("kind:" + case["kind"], "what:" + what, *f)
    ctx.nontrivial = "second_page_off_column_0" in f or any(a["bars"][1:])
