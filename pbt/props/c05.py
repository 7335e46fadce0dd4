"""Direct persistent homology of a filtered complex: barcodes."""
import numpy as np

from .. import algen, oracle as O
from ..core import bars_of, require, same_bars, Snap, sut
from ..pipeline import standard_order

RULE = "the complex has a finite bar, and a bar in positive dimension"
BUDGET = {"quick": {"examples": 12000, "wall": 20},
          "thorough": {"examples": 200000, "wall": 600}}
ASSUMPTIONS = ["vertices are born at radius 0, all radii are below max_rad"]


def generate(s, tier):
    return algen.filtered_complex(s)


def run(case):
    """(D, R, Hom, Im, PreIm), inside sut()."""
    from permaviss.simplicial_complexes.differentials import (
        complex_differentials)
    from permaviss.persistence_algebra.PH_classic import persistent_homology
    C, R = algen.complex_arrays(case)
    D = complex_differentials(C, case["p"])
    keep = [np.copy(x) for x in D[1:]], [np.copy(x) for x in R]
    Hom, Im, PreIm = persistent_homology(D, R, case["max_r"], case["p"])
    for a, b in zip(keep[0] + keep[1], D[1:] + R):
        require(np.array_equal(a, b), "persistent_homology changed its input")
    return D, R, Hom, Im, PreIm


def check(case, ctx):
    levels = algen.complex_levels(case)
    want = O.filtered_homology(levels, float(case["max_r"]), case["p"])
    vals = [b for lev in levels for b in lev.values()] + [case["max_r"]]
    snap = Snap(vals, 0)
    with sut("persistent_homology"):
        _, _, Hom, _, _ = run(case)
        require(len(Hom) == len(want), "%d entries for %d dimensions",
                len(Hom), len(want))
        for d, w in enumerate(want):
            got = bars_of(Hom[d])
            require(len(got) == int(Hom[d].dim), "dim disagrees with barcode")
            for a, b in got:
                require(a < b, "dimension %d: empty bar %r", d, (a, b))
            same_bars(got, w, snap, "dimension %d" % d)
            standard_order(got, "dimension %d" % d)
    ctx.label("kind:" + case["kind"], "p=%d" % case["p"])
    ctx.nontrivial = any(want[1:]) and any(
        b < case["max_r"] for w in want for _, b in w)
