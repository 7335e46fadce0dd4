"""Lifting local cycles to the first page."""
import numpy as np

from .. import geom, oracle as O
from ..core import bars_of, require, sut
from ..pipeline import mv
from ..reps import Decoder, Signs
from ..total import Total
from .c04 import cech, freeze, vertical

RULE = "a cycle is lifted that has both a homology part and a boundary part"
BUDGET = {"quick": {"examples": 1600, "wall": 45},
          "thorough": {"examples": 60000, "wall": 600}}
ASSUMPTIONS = ["the chains that are lifted are cycles at the radius of the "
               "lift; each may have its own radius"]
MIX = ["lat2", "lat2", "ring", "ring", "rings", "rings", "uni2", "thin",
       "lat3", "octa", "slab", "susp", "label", "label"]


def generate(s, tier):
    c = geom.cloud_case(s, 120 if tier == "quick" else 500, MIX,
                        max_dims=[1, 2, 2, 3])
    c["gens"] = s.int(1, 4)
    c["seed"] = s.int(0, 10 ** 6)
    return c


def cycles_at(T, i, k, j, r):
    """Basis of the local j-cycles at radius r, as chains."""
    els = [x for x, b in T.birth.items()
           if x[0] == i and x[1] == k and len(x[2]) == j + 1 and b <= r]
    if not els:
        return []
    if j == 0:
        return [{x: 1} for x in els]
    faces = sorted({x[2][:m] + x[2][m + 1:] for x in els
                    for m in range(j + 1)})
    pos = {f: n for n, f in enumerate(faces)}
    M = [[0] * len(els) for _ in faces]
    for n, x in enumerate(els):
        for m in range(j + 1):
            M[pos[x[2][:m] + x[2][m + 1:]]][n] = (-1) ** m
    return [{els[n]: c for n, c in enumerate(v) if c}
            for v in O.nullspace(M, len(els), T.p)]


def check(case, ctx):
    from permaviss.spectral_sequence.local_chains_class import local_chains
    rng = np.random.default_rng(case["seed"])
    p, n = case["p"], case["gens"]
    tol = 1e-7 * geom.scale_of(geom.points(case))
    with sut("create_MV_ss"):
        ss = mv(case)
        T = Total(case, ss.nerve, ss.points_IN)
        signs = Signs(ss, T)
        dec = Decoder(ss)
    vals, _ = geom.gaps(geom.points(case))
    vals = [v for v in vals if v < case["max_r"]]
    spots = []
    for i in range(T.columns):
        for j in range(case["max_dim"]):
            ks = [k for k in range(len(T.nerve[i]))
                  if len(ss.points_IN[i][k])]
            if ks:
                spots.append((i, j, ks))
    for _ in range(3):
        i, j, ks = spots[rng.integers(len(spots))]
        # one radius per generator; chains on a few cover elements
        # (radii are exact critical values of the code's own bars)
        R = rng.choice(vals, size=n) + tol / 4
        ch = local_chains(len(T.nerve[i]))
        want = [{} for _ in range(n)]
        for k in rng.permutation(ks)[:4]:
            k = int(k)
            ref, rows = [], []
            names = {t: (m, s) for m, (s, t) in enumerate(
                dec.names(i, k, j))}
            for g in range(n):
                if rng.random() < .25:
                    continue
                Z = cycles_at(T, i, k, j, R[g])
                row = [0.0] * len(names)
                z = {}
                for b in Z:
                    if rng.random() < .6:
                        q = int(rng.integers(1, p))
                        for x, c in b.items():
                            z[x] = (z.get(x, 0) + q * c) % p
                for x, c in z.items():
                    m, s = names[x[2]]
                    row[m] = float(c * s % p)
                want[g].update({x: c for x, c in z.items() if c})
                ref.append(g)
                rows.append(row)
            if ref and names:
                ch.add_entry(k, np.array(ref), np.array(rows))
        before = freeze(ch)
        what = "column %d, row %d" % (i, j)
        with sut("first_page_lift, " + what):
            betas, lift = ss.first_page_lift(i, j, ch, np.copy(R))
            require(freeze(ch) == before, "first_page_lift changed its input")
            L = dec.chain(lift, i, j + 1, n)
            H = combos(ss, dec, i, j, betas, R, n, p, tol, what)
            for g in range(n):
                same(T, want[g], H[g], L[g], 1, R[g], signs, tol, what)
                if H[g] and L[g]:
                    ctx.nontrivial = True
        if i > 0:
            with sut("cech_diff_and_lift, " + what):
                betas, lift = ss.cech_diff_and_lift(i, j, ch, np.copy(R))
                require(freeze(ch) == before,
                        "cech_diff_and_lift changed its input")
                L = dec.chain(lift, i - 1, j + 1, n)
                H = combos(ss, dec, i - 1, j, betas, R, n, p, tol, what)
                for g in range(n):
                    same(T, cech(T, want[g], signs), H[g], L[g], -1, R[g],
                         signs, tol, what)
    ctx.label("kind:" + case["kind"])


def combos(ss, dec, i, j, betas, R, n, p, tol, what):
    """Combinations of the local homology representatives with coefficients
    betas, classes in the order of the first page."""
    betas = np.asarray(betas)
    total = sum(int(h[j].dim) for h in ss.Hom[0][i])
    require(betas.shape == (n, total), "%s: coefficients of shape %r, "
            "expected %r", what, betas.shape, (n, total))
    out = [{} for _ in range(n)]
    col = 0
    for k, h in enumerate(ss.Hom[0][i]):
        B = h[j]
        bars = bars_of(B)
        names = dec.names(i, k, j)
        for c, (a, b) in enumerate(bars):
            for g in range(n):
                q = int(betas[g, col]) % p
                require(betas[g, col] == np.rint(betas[g, col]),
                        "%s: a coefficient is not an integer", what)
                if not q:
                    continue
                require(a <= R[g] + tol, "%s: at radius %g uses a class born "
                        "at %g", what, R[g], a)
                for m, v in enumerate(B.coordinates[:, c]):
                    if v:
                        s, t = names[m]
                        x = (i, k, t)
                        out[g][x] = (out[g].get(x, 0) + q * int(v) * s) % p
            col += 1
    return [{x: c for x, c in d.items() if c} for d in out]


def same(T, z, h, lift, sign, r, signs, tol, what):
    """z = h + sign * boundary of lift, all of it alive at radius r."""
    p = T.p
    out = dict(z)
    for x, c in h.items():
        out[x] = (out.get(x, 0) - c) % p
    for x, c in vertical(T, lift, signs).items():
        out[x] = (out.get(x, 0) - sign * c) % p
    require(not any(out.values()), "%s: the cycle is not the sum of its "
            "homology part and the boundary of its lift", what)
    require(all(T.birth[x] <= r + tol for x in lift),
            "%s: the lift uses simplices born after radius %g", what, r)
