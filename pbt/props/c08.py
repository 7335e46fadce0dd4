"""Homology of complexes of persistence modules, quotients, relative images."""
import numpy as np

from .. import algen, oracle as O
from ..core import bars_of, ints, require, Snap, same_bars, sut, Violation
from ..pipeline import standard_order
from .c06 import columns

RULE = ("a complex with two consecutive terms and a non-zero differential, "
        "or a quotient / relative image by a non-trivial part")
BUDGET = {"quick": {"examples": 42000, "wall": 22},
          "thorough": {"examples": 300000, "wall": 600}}
ASSUMPTIONS = ["differentials are well-defined morphisms and compose to zero"]


def generate(s, tier):
    what = s.pick(["chain", "chain", "quotient", "relative"])
    if what == "chain":
        bases, D, p = algen.chain_of_modules(
            s, 4, 7 if tier == "thorough" else 5)
        g = algen.grades(s, 10)
        return {"what": what, "bases": [algen.regrade(g, b) for b in bases],
                "D": D, "p": p}
    p = s.pick([2, 3, 5, 7, 13, 1009])
    m = s.pick([4, 7, 10])
    g = algen.grades(s, m)
    if what == "relative":
        A = algen.bars(s, s.int(2, 6), m)
        B = algen.related_bars(s, A, m, s.int(1, 5))
        F = algen.morphism(s, A, B, p)
        st = s.int(1, len(A) - 1)
        A, F = first_part_a_basis(A, B, F, st, p)
        st -= A[0]
        return {"what": what, "A": algen.regrade(g, A[1]),
                "B": algen.regrade(g, B), "F": F, "st": st, "p": p}
    # a morphism f: A -> B, the quotient of B (or of its image) by the image
    A = algen.bars(s, s.int(1, 5), m)
    B = algen.related_bars(s, A, m, s.int(1, 5))
    return {"what": what, "A": algen.regrade(g, A),
            "B": algen.regrade(g, B), "p": p,
            "F": algen.morphism(s, A, B, p)}


def first_part_a_basis(A, B, F, st, p):
    """Generators are left out of the first part until it is a basis of what
    it generates (that is what image_kernel expects before start_index).
    Returns ((number left out, A), F)."""
    keep = list(range(st))
    vals = sorted({x for b in A + B for x in b})

    def basis(ix):
        for r in vals:
            act = [i for i in ix if A[i][0] <= r < A[i][1]]
            aB = O.active(B, r)
            rows = [[F[j][i] for j in aB] for i in act]
            if act and (not aB or O.rank(rows, p) != len(act)):
                return False
        return True
    while not basis(keep):
        for k in range(len(keep), -1, -1):
            if basis(keep[:k]):
                keep = keep[:k] + keep[k + 1:]
                break
    ix = keep + list(range(st, len(A)))
    return (st - len(keep), [A[i] for i in ix]), [
        [row[i] for i in ix] for row in F]


def check(case, ctx):
    {"chain": chain, "quotient": quot, "relative": relative}[
        case["what"]](case, ctx)
    ctx.label(case["what"], "p=%d" % case["p"])


def chain(case, ctx):
    from permaviss.persistence_algebra.barcode_bases import barcode_basis
    from permaviss.persistence_algebra.module_persistence_homology import (
        module_persistence_homology)
    bs, D, p = case["bases"], case["D"], case["p"]
    L = len(bs)
    want = O.complex_homology_barcodes(bs, D, p)
    vals = sorted({x for b in bs for c in b for x in c})
    snap = Snap(vals, 0)
    ctx.nontrivial = any(any(any(r) for r in D[d]) for d in range(1, L))
    with sut("module_persistence_homology"):
        BB = [barcode_basis(b) for b in bs]
        M = [0] + [np.array(D[d], dtype=float).reshape(
            len(bs[d - 1]), len(bs[d])) for d in range(1, L)]
        keep = [np.copy(x) for x in M]
        Hom, Im, Pre = module_persistence_homology(M, BB, p)
        for a, b in zip(keep, M):
            require(np.array_equal(a, b), "a differential was changed")
        for d in range(L):
            require(bars_of(BB[d]) == [tuple(map(float, x)) for x in bs[d]],
                    "a base was changed")
        require(len(Hom) == L and len(Im) == L, "wrong number of entries")
        for d in range(L):
            hb = bars_of(Hom[d])
            same_bars(hb, want[d], snap, "homology in degree %d" % d)
            hc = columns(Hom[d].coordinates, len(bs[d]), len(hb), p,
                         "representatives")
            ib = bars_of(Im[d])
            ic = columns(Im[d].coordinates, len(bs[d]), len(ib), p,
                         "image coordinates")
            # preimages are needed wherever the image is not trivial
            pc = columns(Pre[d + 1], len(bs[d + 1]), len(ib), p,
                         "preimages") if ib else []
            for r in vals:
                a = O.active(bs[d], r)
                up = [[D[d + 1][i][j] for i in a]
                      for j in O.active(bs[d + 1], r)] \
                    if d + 1 < L and bs[d + 1] and bs[d] else []
                lo = O.active(bs[d - 1], r) if d else []
                rb = O.rank(up, p) if up and a else 0
                alive = [[c[i] for i in a]
                         for (b, e), c in zip(hb, hc) if b <= r < e]
                require(not alive or O.rank(alive + up, p)
                        == rb + len(alive),
                        "homology classes alive at %r are dependent", r)
                for v in alive:
                    require(not any(sum(D[d][i][j] * x
                                        for j, x in zip(a, v)) % p
                                    for i in lo),
                            "a representative alive at %r is not a cycle", r)
                for (b, e), c in zip(hb, hc):
                    if r >= e and a:
                        require(O.rank([[c[i] for i in a]] + up, p) == rb,
                                "a class that died at %r is not trivial at "
                                "%r", e, r)
                    require(r != b or all(
                        not x or bs[d][i][0] <= b for i, x in enumerate(c)),
                        "a representative uses a generator born later")
                ial = [[c[i] for i in a]
                       for (b, e), c in zip(ib, ic) if b <= r < e]
                require(len(ial) == rb and (not ial or O.rank(
                    ial, p) == rb == O.rank(ial + up, p)),
                    "image generators alive at %r are not a basis of the "
                    "image", r)
                for (b, e), c, q in zip(ib, ic, pc):
                    if b <= r < e:
                        aA = O.active(bs[d + 1], r)
                        require([sum(D[d + 1][i][j] * q[j] for j in aA) % p
                                 for i in a] == [c[i] for i in a],
                                "a preimage does not map to its image "
                                "generator at %r", r)


def rel_oracle(A, B, F, st, p):
    vals = sorted({x for b in A + B for x in b})

    def rk(i, j):
        bi, bj = O.active(B, vals[i]), O.active(B, vals[j])
        if not bj:
            return 0
        M = [[F[b][a] if b in bi else 0 for b in bj]
             for a in O.active(A, vals[i])]
        N = [[F[b][a] for b in bj] for a in O.active(A, vals[j]) if a < st]
        return (O.rank(M + N, p) if M + N else 0) - (
            O.rank(N, p) if N else 0)
    return vals, O.barcode_from_ranks(vals, rk)


def relative(case, ctx):
    """<F[st:]> modulo <F[:st]>"""
    from permaviss.persistence_algebra.barcode_bases import barcode_basis
    from permaviss.persistence_algebra.image_kernel import image_kernel
    A, B, F, st, p = (case[k] for k in ("A", "B", "F", "st", "p"))
    if st == 0:
        return
    vals, want = rel_oracle(A, B, F, st, p)
    snap = Snap(vals, 0)
    with sut("image_kernel, relative"):
        Im, Pre = image_kernel(
            barcode_basis(A), barcode_basis(B), np.array(F), p,
            start_index=st, prev_basis=barcode_basis(A[st:]))
        bars = bars_of(Im)
        same_bars(bars, want, snap, "relative image")
        standard_order(bars, "relative image")
        ic = columns(Im.coordinates, len(B), len(bars), p, "coordinates")
        rel_certify(A, B, F, st, p, vals, bars, ic)
    ctx.nontrivial = bool(bars)


def rel_certify(A, B, F, st, p, vals, bars, ic):
    for r in vals:
        aB = O.active(B, r)
        N = [[F[b][a] for b in aB] for a in O.active(A, r) if a < st]
        M = [[F[b][a] for b in aB] for a in O.active(A, r)]
        rn = O.rank(N, p) if N and aB else 0
        rm = O.rank(M, p) if M and aB else 0
        alive = [[c[i] for i in aB] for (b, e), c in zip(bars, ic)
                 if b <= r < e]
        require(len(alive) == rm - rn, "wrong number of bars at %r", r)
        require(not alive or O.rank(N + alive, p) == rn + len(alive),
                "generators alive at %r are dependent modulo the "
                "submodule", r)
        require(not alive or O.rank(M + alive, p) == rm,
                "a generator alive at %r is not in the image", r)
        for (b, e), c in zip(bars, ic):
            if r >= e and aB:
                require(O.rank(N + [[c[i] for i in aB]], p) == rn,
                        "a generator that died at %r is not in the "
                        "submodule at %r", e, r)


def quot(case, ctx):
    """Quotient of B by the image of A -> B."""
    from permaviss.persistence_algebra.barcode_bases import barcode_basis
    from permaviss.persistence_algebra.image_kernel import image_kernel
    from permaviss.persistence_algebra.module_persistence_homology import (
        quotient)
    A, B, F, p = (case[k] for k in ("A", "B", "F", "p"))
    want = O.complex_homology_barcodes([B, A], [0, F], p)[0]
    vals = sorted({x for b in A + B for x in b})
    snap = Snap(vals, 0)
    with sut("quotient"):
        bb = barcode_basis(B)
        Im, _, _ = image_kernel(barcode_basis(A), bb, np.array(F), p)
        M = barcode_basis(B, bb, np.identity(len(B)))
        M.sort()
        before = np.copy(M.coordinates), np.copy(Im.coordinates)
        if int(Im.dim):
            other = barcode_basis([[a + 1, b + 1] for a, b in B])
            try:
                quotient(barcode_basis(B, other, np.identity(len(B))), Im, p)
            except ValueError:
                pass
            else:
                raise Violation("quotient of modules in different bases")
        Q = quotient(M, Im, p)
        require(np.array_equal(before[0], M.coordinates) and
                np.array_equal(before[1], Im.coordinates),
                "quotient changed its arguments")
        bars = bars_of(Q)
        same_bars(bars, want, snap, "quotient")
        qc = columns(Q.coordinates, len(B), len(bars), p, "coordinates")
        n = len(A)
        F2 = [list(r) + [int(i == j) for j in range(len(B))]
              for i, r in enumerate(F)]
        rel_certify(A + B, B, F2, n, p, vals, bars, qc)
    ctx.nontrivial = int(Im.dim) > 0


assert ints is not None
