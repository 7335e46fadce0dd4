"""Every page is the page of the Mayer-Vietoris double complex."""
import numpy as np

from .. import geom
from ..core import bars_of, require, sut
from ..pipeline import mv
from ..total import Span, Total, page_spaces

RULE = ("a page from the second one on has a class outside column 0, or two "
        "consecutive pages after the first one differ")
BUDGET = {"quick": {"examples": 1200, "wall": 70},
          "thorough": {"examples": 40000, "wall": 780}}
ASSUMPTIONS = [
    "max_r is not within 5e-7 (relative) of a pairwise distance",
    "only entries whose differentials stay inside the computed rows are "
    "compared",
]
MIX = ["label"] * 7 + ["octa"] * 4 + ["slab"] * 2 + [
    "lat2", "lat2", "susp", "ring", "rings", "rings", "thin", "uni2", "line",
    "lat3", "cubes", "flat"]

smaller = geom.smaller


def generate(s, tier):
    c = geom.cloud_case(s, 250 if tier == "quick" else 900, MIX,
                        deep=0 if tier == "quick" else 15)
    c["at"] = [s.int(0, 999) for _ in range(4)]
    return c


def radii(case):
    vals, _ = geom.gaps(geom.points(case))
    vals = [v for v in vals if v < case["max_r"]]
    tol = 1e-7 * geom.scale_of(geom.points(case))
    # away from the next critical radius
    vals = [a for a, b in zip(vals, vals[1:] + [case["max_r"]])
            if b - a > 2 * tol]
    idx = {0, len(vals) - 1} | {a * len(vals) // 1000
                                for a in case.get("at", [300, 600, 800])}
    return [vals[k] + tol for k in sorted(idx)]


def entry(ss, k, i, j, no_cols):
    """Bars at column i, row j of page k."""
    if k == 1:
        out = []
        for h in ss.Hom[0][i]:
            out += bars_of(h[j])
        return out
    return bars_of(ss.Hom[k - 1][i][j])


def valid(k, i, j, max_dim):
    """The entry of page k only depends on computed rows."""
    return all(j + m - 1 < max_dim for m in range(1, min(k - 1, i) + 1))


def check(case, ctx):
    with sut("create_MV_ss"):
        ss = mv(case)
        T = Total(case, ss.nerve, ss.points_IN)
        no_pages = int(ss.no_pages)
        P = np.asarray(ss.page_dim_matrix)
    md, p = case["max_dim"], case["p"]
    rs = radii(case)
    top = max(md, 1)
    reds = [T.reduce(r, top + 1) for r in rs]
    tol = 1e-7 * geom.scale_of(geom.points(case))
    for k in range(1, no_pages + 1):
        for i in range(T.columns):
            for j in range(md):
                if i + j > top or not valid(k, i, j, md):
                    continue
                with sut("page %d" % k):
                    bars = entry(ss, k, i, j, T.columns)
                    require(int(P[k, j, i]) == len(bars),
                            "page %d column %d row %d: dimension matrix says "
                            "%d, there are %d bars", k, i, j, int(P[k, j, i]),
                            len(bars))
                # the last page is the limit, in the dimensions of the result
                kk = k
                if k == no_pages and i + j < md:
                    kk = k + T.columns + md
                sp = [page_spaces(els, red, kk, i, j, p) for els, red in reds]
                if not bars and not any(z for z, _ in sp):
                    continue
                base = []
                for _, B in sp:
                    S = Span(p)
                    for b in B:
                        S.insert(b)
                    base.append(S)
                for a in range(len(rs)):
                    for b in range(a, len(rs)):
                        S = base[b].copy()
                        want = sum(S.insert(z) for z in sp[a][0])
                        got = sum(x <= rs[a] and y > rs[b] - tol / 2
                                  for x, y in bars)
                        require(got == want,
                                "page %d, column %d, row %d: %d classes "
                                "persist from %g to %g, expected %d", k, i,
                                j, got, rs[a], rs[b], want)
    with sut("features"):
        f = geom.features(ss)
    ctx.label("kind:" + case["kind"], "pages=%d" % no_pages, *f)
    ctx.nontrivial = "second_page_off_column_0" in f or any(
        x.startswith("page") for x in f)
