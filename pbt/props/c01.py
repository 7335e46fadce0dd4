"""The spectral sequence returns the persistent homology of the Rips complex."""
from .. import geom
from ..core import require, sut
from ..pipeline import compare, mv, mv_bars

RULE = ("the cover has a non-empty intersection of two cover elements and the "
        "persistent homology has a bar in positive dimension")
BUDGET = {"quick": {"examples": 2600, "wall": 70},
          "thorough": {"examples": 60000, "wall": 780}}
ASSUMPTIONS = [
    "the overlap is at least max_r, so that the cover resolves the complex",
    "max_r is not within 5e-7 (relative) of a pairwise distance",
]


smaller = geom.smaller


def generate(s, tier):
    return geom.cloud_case(s, 600 if tier == "quick" else 3000,
                           deep=0 if tier == "quick" else 15)


def check(case, ctx):
    snap = geom.snap_for(case)
    levels, want = geom.reference(case)
    with sut("create_MV_ss"):
        ss = mv(case)
        got = mv_bars(ss, case)
        for d, bars in enumerate(got):
            for a, b in bars:
                require(a < b, "dimension %d: empty bar %r", d, (a, b))
        compare(got, want, snap, "barcode")
        feats = geom.features(ss)
    ctx.label("kind:" + case["kind"], *feats)
    ctx.nontrivial = any(want[1:]) and any(
        len(x) > 0 for x in ss.points_IN[1])
