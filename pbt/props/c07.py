"""Image and kernel of a persistence morphism."""
import numpy as np

from .. import algen, oracle as O
from ..core import bars_of, ints, require, Snap, same_bars, sut, Violation
from ..pipeline import standard_order
from .c06 import columns

RULE = ("the image and the kernel both have a bar, or an image bar needs a "
        "combination of generators")
BUDGET = {"quick": {"examples": 45000, "wall": 20},
          "thorough": {"examples": 400000, "wall": 600}}
ASSUMPTIONS = ["the matrix is a well-defined persistence morphism"]


def generate(s, tier):
    p = s.pick([2, 3, 5, 7, 13, 101, 1009])
    m = s.pick([4, 7, 10])
    big = 9 if tier == "thorough" else 6
    A = algen.bars(s, s.int(1, big), m)
    B = algen.related_bars(s, A, m, s.int(1, big))
    F = algen.morphism(s, A, B, p)
    # some columns are combinations of others, so that the kernel is large
    for i in range(1, len(A)):
        if s.chance(25):
            k, c = s.int(0, i - 1), s.int(1, p - 1)
            for j, b in enumerate(B):
                F[j][i] = c * F[j][k] % p if algen.hom(A[i], b) else 0
    sort_a, sort_b = s.chance(30), s.chance(30)
    g = algen.grades(s, m)
    A, B = algen.regrade(g, A), algen.regrade(g, B)
    return {"A": A, "B": B, "F": F, "p": p, "sa": sort_a, "sb": sort_b,
            "float": s.chance(50), "rep": s.pick([0] * 6 + [1, 2]),
            "bad": s.pick([0] * 12 + [1, 2])}


def bases(case):
    from permaviss.persistence_algebra.barcode_bases import barcode_basis
    A, B, F = case["A"], case["B"], np.array(case["F"])
    ba = barcode_basis(np.array(A, dtype=float) if case["float"]
                       else np.array(A))
    bb = barcode_basis(np.array(B, dtype=float) if case["float"]
                       else np.array(B))
    if case["float"]:
        F = F.astype(float)
    F = F.reshape(len(B), len(A))
    if case.get("rep"):         # other representatives of the residues
        i, j = np.indices(F.shape)
        F = F + case["p"] * ((case["rep"] + 3 * i + 5 * j) % 3 - 1)
    if case["sa"]:
        o = ba.sort(send_order=True)
        F = F[:, o]
        A = [A[i] for i in o]
    if case["sb"]:
        o = bb.sort(send_order=True)
        F = F[o]
        B = [B[i] for i in o]
    return ba, bb, A, B, F


def check(case, ctx):
    from permaviss.persistence_algebra.image_kernel import image_kernel
    p = case["p"]
    with sut("image_kernel"):
        ba, bb, A, B, F = bases(case)
        if case.get("bad"):
            G = np.append(F, F[:1], axis=0) if case["bad"] == 1 else \
                np.append(F, F[:, :1], axis=1)
            try:
                image_kernel(ba, bb, G, p)
            except ValueError:
                ctx.label("rejected")
                return
            raise Violation("a matrix of the wrong shape was accepted")
        F0, a0, b0 = F.copy(), ba.barcode.copy(), bb.barcode.copy()
        Im, Ker, Pre = image_kernel(ba, bb, F, p)
        require(np.array_equal(F, F0) and np.array_equal(a0, ba.barcode) and
                np.array_equal(b0, bb.barcode),
                "image_kernel changed its arguments")
    F = ints(F0, p)
    wi, wk = O.image_kernel_barcodes(A, B, F, p)
    vals = sorted({x for b in A + B for x in b})
    snap = Snap(vals, 0)
    with sut("image_kernel"):
        gi, gk = bars_of(Im), bars_of(Ker)
        same_bars(gi, wi, snap, "image")
        same_bars(gk, wk, snap, "kernel")
        standard_order(gi, "image")
        standard_order(gk, "kernel")
        ic = columns(Im.coordinates, len(B), len(gi), p, "image coordinates")
        kc = columns(Ker.coordinates, len(A), len(gk), p,
                     "kernel coordinates")
        pc = columns(Pre, len(A), len(gi), p, "preimages")
        certify(A, B, F, p, vals, gi, ic, gk, kc, pc)
    combos = any(sum(1 for x in c if x) > 1 for c in pc)
    ctx.nontrivial = bool((gi and gk) or combos)
    if combos:
        ctx.label("image bar from a combination")
    if gi and gk:
        ctx.label("image and kernel")


def certify(A, B, F, p, vals, gi, ic, gk, kc, pc):
    for r in vals:
        aA, aB = O.active(A, r), O.active(B, r)
        im = [[F[i][j] for i in aB] for j in aA]
        rk = O.rank(im, p) if im and aB else 0
        vec = [[c[i] for i in aB] for (b, e), c in zip(gi, ic) if b <= r < e]
        if vec:
            require(O.rank(vec, p) == len(vec),
                    "image generators alive at %r are dependent", r)
            require(O.rank(vec + im, p) == rk,
                    "an image generator alive at %r is not in the image", r)
        for (b, e), c, q in zip(gi, ic, pc):
            if r >= e:
                require(not any(c[i] for i in aB),
                        "an image generator that died at %r is not zero at %r",
                        e, r)
            if b <= r < e:
                live = [q[j] if j in aA else 0 for j in range(len(A))]
                require([O.matvec(F, live, p)[i] for i in aB]
                        == [c[i] for i in aB],
                        "a preimage does not map to its image generator "
                        "at %r", r)
                require(all(not x or A[j][0] <= b for j, x in enumerate(q)),
                        "the preimage of a bar born at %r uses a generator "
                        "born later", b)
        vec = [[c[j] for j in aA] for (b, e), c in zip(gk, kc) if b <= r < e]
        if vec:
            require(O.rank(vec, p) == len(vec),
                    "kernel generators alive at %r are dependent", r)
            for v in vec:
                require(not any(sum(F[i][j] * x for j, x in zip(aA, v)) % p
                                for i in aB),
                        "a kernel generator alive at %r is not in the kernel",
                        r)
        for (b, e), c in zip(gk, kc):
            if r >= e:
                require(not any(c[j] for j in aA),
                        "a kernel generator that died at %r is not zero at "
                        "%r", e, r)
            if r == b:
                require(all(not x or A[j][0] <= b for j, x in enumerate(c)),
                        "a kernel generator uses a generator born later")
