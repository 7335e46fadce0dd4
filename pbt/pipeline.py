"""Calls into the Mayer-Vietoris pipeline of the code under test."""
import numpy as np

from . import geom
from .core import bars_of, require, same_bars, sut


def mv(case, X=None, **over):
    """create_MV_ss on a case (inside sut())."""
    from permaviss.spectral_sequence.MV_spectral_seq import create_MV_ss
    c = dict(case, **over)
    if X is None:
        X = geom.points(c)
    return create_MV_ss(X, c["max_r"], c["max_dim"], c["max_div"],
                        c["overlap"], c["p"])


def mv_bars(ss, case):
    """Barcodes of the result, one list per dimension < max_dim."""
    PH = ss.persistent_homology
    require(len(PH) == case["max_dim"],
            "persistent_homology has %d entries, expected one for each "
            "dimension below %d", len(PH), case["max_dim"])
    return [bars_of(b) for b in PH]


def compare(got, want, snap, what):
    for d, w in enumerate(want):
        same_bars(got[d], w, snap, "%s, dimension %d" % (what, d))


def standard_order(bars, what):
    """Births ascending, deaths descending for equal births."""
    for (a, b), (c, d) in zip(bars, bars[1:]):
        require(a < c or (a == c and b >= d),
                "%s: bars %r, %r are not in standard order", what,
                (a, b), (c, d))
