"""The Cech differential on chains."""
import numpy as np

from .. import geom
from ..core import require, sut
from ..pipeline import mv
from ..reps import Decoder, Signs
from ..total import Total

RULE = ("the Cech differential of a non-zero chain with simplices of positive "
        "dimension is not zero")
BUDGET = {"quick": {"examples": 2400, "wall": 30},
          "thorough": {"examples": 80000, "wall": 600}}
ASSUMPTIONS = ["each differential may be the opposite of the usual one in a "
               "whole dimension"]
MIX = ["lat2", "lat2", "ring", "rings", "uni2", "uni2", "line", "flat",
       "thin", "lat3", "octa", "slab", "susp", "label", "label"]


def generate(s, tier):
    c = geom.cloud_case(s, 120 if tier == "quick" else 500, MIX,
                        max_dims=[1, 2, 2, 3])
    c["gens"] = s.int(1, 4)
    c["fill"] = s.pick([10, 40, 70])
    c["seed"] = s.int(0, 10 ** 6)
    return c


def random_chains(ss, i, j, n, fill, p, rng):
    """Random chains of n generators on column i, row j."""
    from permaviss.spectral_sequence.local_chains_class import local_chains
    out = local_chains(len(ss.subcomplexes[i]))
    for k, C in enumerate(ss.subcomplexes[i]):
        m = int(C[0]) if j == 0 else len(C[j])
        ref = [g for g in range(n) if rng.random() < .7]
        if m == 0 or not ref:
            continue
        co = rng.integers(0, p, size=(len(ref), m)) * (
            rng.random((len(ref), m)) * 100 < fill)
        out.add_entry(k, np.array(ref), co.astype(float))
    return out


def cech(T, x, signs):
    p = T.p
    out = {}
    for (i, k, t), c in x.items():
        e = signs.nerve[i] * (-1) ** (len(t) - 1)
        for f, q in T.face[i][k]:
            y = (i - 1, f, t)
            out[y] = (out.get(y, 0) + c * e * q) % p
    return {y: c for y, c in out.items() if c}


def vertical(T, x, signs):
    p = T.p
    out = {}
    for (i, k, t), c in x.items():
        if len(t) < 2:
            continue
        e = signs.simp.get(len(t) - 1, 1)
        for m in range(len(t)):
            y = (i, k, t[:m] + t[m + 1:])
            out[y] = (out.get(y, 0) + c * e * (-1) ** m) % p
    return {y: c for y, c in out.items() if c}


def vertical_code(ss, i, j, chains, p):
    """The vertical differential by the code's own matrices."""
    from permaviss.spectral_sequence.local_chains_class import local_chains
    out = local_chains(len(ss.subcomplexes[i]))
    for k, ref in enumerate(chains.ref):
        if len(ref):
            out.add_entry(k, ref, np.matmul(
                chains.coord[k], ss.zero_diff[i][k][j].T) % p)
    return out


def freeze(ch):
    return [(list(map(int, r)), np.array(c).tolist())
            for r, c in zip(ch.ref, ch.coord)]


def check(case, ctx):
    rng = np.random.default_rng(case["seed"])
    p, n = case["p"], case["gens"]
    with sut("cech_diff"):
        ss = mv(case)
        T = Total(case, ss.nerve, ss.points_IN)
        signs = Signs(ss, T)
        dec = Decoder(ss)
        for i in range(1, T.columns):
            for j in range(case["max_dim"] + 1):
                x = random_chains(ss, i, j, n, case["fill"], p, rng)
                before = freeze(x)
                y = ss.cech_diff(i - 1, j, x)
                require(freeze(x) == before, "cech_diff changed its input")
                X = dec.chain(x, i, j, n)
                Y = dec.chain(y, i - 1, j, n)
                for a, b in zip(X, Y):
                    require(cech(T, a, signs) == b, "column %d, row %d: not "
                            "the signed sum of the inclusions", i, j)
                if any(Y) and j > 0:
                    ctx.nontrivial = True
                if i > 1:
                    z = dec.chain(ss.cech_diff(i - 2, j, y), i - 2, j, n)
                    require(not any(z), "column %d, row %d: the square of "
                            "the Cech differential is not zero", i, j)
                if j > 0:
                    v = vertical_code(ss, i, j, x, p)
                    V = dec.chain(v, i, j - 1, n)
                    for a, b in zip(X, V):
                        require(vertical(T, a, signs) == b,
                                "column %d, row %d: wrong vertical "
                                "differential", i, j)
                    dv = dec.chain(ss.cech_diff(i - 1, j - 1, v),
                                   i - 1, j - 1, n)
                    vd = dec.chain(vertical_code(ss, i - 1, j, y, p),
                                   i - 1, j - 1, n)
                    for a, b in zip(dv, vd):
                        require({e: -c % p for e, c in a.items()} == b,
                                "column %d, row %d: the two differentials do "
                                "not anticommute", i, j)
    ctx.label("kind:" + case["kind"], "columns=%d" % T.columns)
