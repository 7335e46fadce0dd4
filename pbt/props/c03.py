"""Representatives of the classes of every page."""
from .. import geom
from ..core import bars_of, require, sut
from ..pipeline import mv
from ..reps import (Decoder, Signs, project, rips_boundary, sorted_sign,
                    total_boundary)
from ..total import Span, Total, page_spaces
from .c02 import MIX, radii, valid

RULE = ("a class outside column 0 has a representative with at least two "
        "components")
BUDGET = {"quick": {"examples": 1200, "wall": 70},
          "thorough": {"examples": 40000, "wall": 780}}
ASSUMPTIONS = [
    "max_r is not within 5e-7 (relative) of a pairwise distance",
    "only entries whose differentials stay inside the computed rows are "
    "looked at",
]

smaller = geom.smaller


def generate(s, tier):
    c = geom.cloud_case(s, 250 if tier == "quick" else 900, MIX,
                        deep=0 if tier == "quick" else 15)
    c["at"] = [s.int(0, 999)]
    return c


def boundaries(case, levels, n, r):
    S = Span(case["p"])
    for t, b in levels[n + 1].items():
        if b <= r:
            S.insert(rips_boundary({t: 1}, case["p"]))
    return S


def check(case, ctx):
    with sut("create_MV_ss"):
        ss = mv(case)
        T = Total(case, ss.nerve, ss.points_IN)
        signs = Signs(ss, T)
        dec = Decoder(ss)
        no_pages = int(ss.no_pages)
    md, p = case["max_dim"], case["p"]
    tol = 1e-7 * geom.scale_of(geom.points(case))
    rs = radii(case)
    if len(rs) > 3:
        rs = rs[-3:]
    reds = [T.reduce(r, md + 1) for r in rs]
    for page in range(1, no_pages):
        for i in range(T.columns):
            for j in range(md):
                if not valid(page + 1, i, j, md) or i + j > md:
                    continue
                what = "page %d, column %d, row %d" % (page + 1, i, j)
                with sut(what):
                    bars = bars_of(ss.Hom[page][i][j])
                    reps = dec.reps(page, i, j)
                for n, (b, x) in enumerate(zip(bars, reps)):
                    one_class(T, signs, x, b, i, j, page, tol,
                              "%s, class %d" % (what, n))
                    if len(x) > 1 and any(x[1:]):
                        ctx.nontrivial = True
                for r, (els, red) in zip(rs, reds):
                    act = [x[0] for (a, b), x in zip(bars, reps)
                           if a <= r < b + tol / 2]
                    if not act:
                        continue
                    Z, B = page_spaces(els, red, page + 1, i, j, p)
                    S = Span(p)
                    for v in B:
                        S.insert(v)
                    for v in act:
                        require(S.insert(v), "%s: at radius %g the "
                                "representatives are not independent", what,
                                r)
                    for v in Z:
                        require(not S.insert(v), "%s: at radius %g the "
                                "representatives miss a class", what, r)
    final(case, ss, dec, md, p, rs, tol)
    with sut("features"):
        f = geom.features(ss)
    ctx.label("kind:" + case["kind"], *f)


def one_class(T, signs, x, bar, i, j, page, tol, what):
    require(len(x) == min(page, i) + 1, "%s: %d components, expected %d",
            what, len(x), min(page, i) + 1)
    z = {}
    for comp in x:
        z.update(comp)
    for e in z:
        require(e in T.birth, "%s: %r is not a simplex", what, e)
        require(T.birth[e] <= bar[0] + tol, "%s: uses a simplex born at %g, "
                "the class is born at %g", what, T.birth[e], bar[0])
    low = i - len(x)
    for e, c in total_boundary(T, z, signs).items():
        require(e[0] <= low, "%s: the boundary of its representative does "
                "not vanish in column %d", what, e[0])


def final(case, ss, dec, md, p, rs, tol):
    """Representatives of the last page, projected to the Rips complex."""
    levels, _ = geom.reference(case)
    for n in range(md):
        classes = []
        with sut("last page"):
            for i in range(min(n + 1, len(ss.Hom[-1]))):
                j = n - i
                bars = bars_of(ss.Hom[ss.no_pages - 1][i][j])
                for b, x in zip(bars, dec.reps(ss.no_pages - 1, i, j)):
                    classes.append((b, project(x, p)))
        for (a, _), z in classes:
            require(not rips_boundary(z, p), "dimension %d: a representative "
                    "is not a cycle of the Rips complex", n)
            require(all(levels[n].get(t, 1e300) <= a + tol for t in z),
                    "dimension %d: a representative is not alive at birth", n)
        for r in rs:
            S = boundaries(case, levels, n, r)
            act = [z for (a, b), z in classes if a <= r < b + tol / 2]
            for z in act:
                require(S.insert(z), "dimension %d: at radius %g the "
                        "representatives are dependent in the homology of "
                        "the Rips complex", n, r)


assert sorted_sign
