"""Barcode bases: construction, order, queries, broken differentials."""
import numpy as np

from .. import algen
from ..core import ints, require, sut, Violation

RULE = "three or more non-empty bars, two of them sharing an end point"
BUDGET = {"quick": {"examples": 140000, "wall": 15},
          "thorough": {"examples": 1000000, "wall": 500}}
ASSUMPTIONS = ["sorting and the queries by radius are only used on bases "
               "built from at least one bar"]


def generate(s, tier):
    p = s.pick([2, 3, 5, 7, 101])
    n = s.int(1, 8)
    grid = s.pick([3, 5, 9])
    unit = s.pick([1, 1, .5, .1, 1 / 3, 1e-3, 1e-5])
    off = s.pick([0, 0, -2, 100])
    bars = []
    for _ in range(n):
        a, b = s.int(0, grid), s.int(0, grid)
        if a > b and not s.chance(25):
            a, b = b, a
        bars.append([off + a * unit, off + b * unit])
    if unit == 1 and s.chance(30):
        bars = [[int(a), int(b)] for a, b in bars]
    ops = []
    for _ in range(s.int(1, 5)):
        ops.append([s.pick(["sort", "sort", "sort_order", "round", "active",
                            "birth", "death", "changes", "update"]),
                    s.int(0, 2 * grid + 2), s.int(0, 3)])
    good = sum(a < b for a, b in bars)
    mode = s.pick(["plain", "coords", "coords", "broken", "broken",
                   "bad"])
    m = s.int(1, 4)
    return {"p": p, "bars": bars, "unit": unit, "off": off, "ops": ops,
            "mode": mode, "m": m, "bad": s.int(0, 3),
            "coords": algen.matrix(s, m, n, p),
            "broken": algen.matrix(s, good, good, p, 40),
            "A": algen.matrix(s, good, s.int(1, 4), p),
            "wd": s.chance(50)}


def rejected(f, what):
    try:
        f()
    except ValueError:
        return
    raise Violation("%s: no ValueError" % what)


def same(got, want, what):
    got = [int(x) for x in got]
    require(got == want, "%s: got %r, expected %r", what, got, want)


def check(case, ctx):
    from permaviss.persistence_algebra.barcode_bases import barcode_basis
    p = case["p"]
    bars = np.array(case["bars"])
    good = [a < b for a, b in case["bars"]]
    keep = [i for i, g in enumerate(good) if g]
    mode = case["mode"]
    if mode == "broken" and not keep:
        mode = "plain"
    coords = np.array(case["coords"])
    broken = np.array(case["broken"], dtype=float).reshape(
        len(keep), len(keep))
    with sut("barcode_basis"):
        prev = barcode_basis([[0, 1 + k] for k in range(case["m"])])
        for none in (barcode_basis([]), barcode_basis([], prev)):
            require(int(none.dim) == 0 and len(none.barcode) == 0,
                    "a basis of no bars has dimension %r", none.dim)
        require(none.prev_basis is prev, "previous basis of no bars")
    if mode == "bad":
        with sut("barcode_basis"):
            if case["bad"] == 0:
                rejected(lambda: barcode_basis(
                    bars, prev, np.vstack([coords, coords[:1]])),
                    "more coordinates than the previous basis has elements")
            elif case["bad"] == 1:
                rejected(lambda: barcode_basis(
                    bars, prev, np.hstack([coords, coords[:, :1]])),
                    "more coordinate columns than bars")
            elif case["bad"] == 2:
                rejected(lambda: barcode_basis(bars, broken_basis=True),
                         "broken basis without broken differentials")
            else:
                k = len(keep)
                for q in ((k + 1, k + 1), (k, k + 1), (k + 1, k)):
                    rejected(lambda: barcode_basis(
                        bars, broken_basis=True,
                        broken_differentials=np.zeros(q)),
                        "broken differentials of the wrong size")
        ctx.label("rejected")
        return
    given = np.copy(bars), np.copy(coords)
    with sut("barcode_basis"):
        if mode == "coords":
            B = barcode_basis(bars, prev, coords,
                              store_well_defined=case["wd"])
            model_c = coords[:, keep]
        elif mode == "broken":
            B = barcode_basis(bars, broken_basis=True,
                              broken_differentials=np.copy(broken),
                              store_well_defined=case["wd"])
        else:
            B = barcode_basis(bars, store_well_defined=case["wd"])
        if case["wd"]:
            require(list(map(bool, B.well_defined)) == good,
                    "well_defined: got %r", B.well_defined)
    model = [case["bars"][i] for i in keep]
    names = list(range(len(keep)))      # original number of each element
    for op, at, prec in [["none", 0, 0]] + case["ops"]:
        rad = case["off"] + at * case["unit"] / 2
        ref = [[case["bars"][keep[i]] for i in names]][0]
        if ref and prec and op in ("active", "birth", "death"):
            # at an end of a bar, or the next number on either side of it
            rad = float(ref[at % len(ref)][at // len(ref) % 2])
            if prec > 1:
                rad = float(np.nextafter(rad, -np.inf if prec == 2
                                         else np.inf))
        with sut(op):
            if op in ("sort", "sort_order", "round"):
                kw = {"precision": prec} if op == "round" else {}
                key = (lambda b: (np.around(b[0], prec), -np.around(b[1],
                                                                    prec))
                       ) if op == "round" else (lambda b: (b[0], -b[1]))
                ties = len(set(map(tuple, ref))) < len(ref)
                send = op != "sort" or (mode == "broken" and ties)
                order = B.sort(send_order=send, **kw)
                want = sorted(range(len(ref)), key=lambda i: key(ref[i]))
                if not send:
                    require(order is None, "sort returned %r", order)
                    order = want
                else:
                    order = [int(i) for i in order]
                    require(sorted(order) == list(range(len(ref))),
                            "the order %r is not a permutation", order)
                    require([key(ref[i]) for i in order] ==
                            [key(ref[i]) for i in want],
                            "order %r does not sort %r", order, ref)
                names = [names[i] for i in order]
                require(bool(B.sorted), "not marked as sorted")
            elif op == "active":
                same(B.active(rad), [i for i, (a, b) in enumerate(ref)
                                     if a <= rad < b], "active(%r)" % rad)
            elif op == "birth":
                r = rad if not ref else ref[at % len(ref)][0]
                same(B.birth(r), [i for i, (a, b) in enumerate(ref)
                                  if a == r], "birth(%r)" % r)
                same(B.birth(rad), [i for i, (a, b) in enumerate(ref)
                                    if a == rad], "birth(%r)" % rad)
            elif op == "death":
                r = rad if not ref else ref[at % len(ref)][1]
                same(B.death(r), [i for i, (a, b) in enumerate(ref)
                                  if b == r], "death(%r)" % r)
                same(B.death(rad), [i for i, (a, b) in enumerate(ref)
                                    if b == rad], "death(%r)" % rad)
            elif op == "changes":
                got = [float(x) for x in B.changes_list()]
                require(got == sorted({float(x) for b in ref for x in b}),
                        "changes_list: got %r for %r", got, ref)
            elif op == "update" and mode == "broken":
                r = ref[at % len(ref)][1] if prec else rad
                A = np.array(case["A"], dtype=float)
                E = broken[np.ix_(names, names)]
                dying = [i for i, (a, b) in enumerate(ref) if b == r]
                want = A.copy()
                for i in dying:
                    want[i] = 0
                for i in dying:
                    want += np.outer(E[:, i], A[i])
                got = B.update_broken(np.copy(A), r, p)
                require(ints(got, p) == ints(want, p),
                        "update_broken(%r): wrong result", r)
                if dying:
                    require(bool(np.all((0 <= got) & (got < p))),
                            "update_broken: entries outside 0..p-1")
            ref = [case["bars"][keep[i]] for i in names]
            # (sorting is stable or not: equal bars may be exchanged only
            # together with their coordinates)
            require(int(B.dim) == len(ref), "dim is %r, expected %d", B.dim,
                    len(ref))
            require(np.array_equal(np.asarray(B.barcode).reshape(-1, 2),
                                   np.array(ref).reshape(-1, 2)),
                    "%s: bars are %r, expected %r", op,
                    np.asarray(B.barcode).tolist(), ref)
            if mode == "coords":
                same_up_to_ties(B.coordinates, model_c, names, ref, op)
            if mode == "broken":
                got = np.asarray(B.broken_differentials)
                require(np.array_equal(got, broken[np.ix_(names, names)]),
                        "%s: broken differentials do not follow the order",
                        op)
    require(np.array_equal(bars, given[0]) and np.array_equal(
        coords, given[1]), "the input changed")
    ends = [x for b in model for x in b]
    ctx.nontrivial = len(model) >= 3 and len(set(ends)) < len(ends)
    ctx.label("mode:" + mode, *("op:" + o[0] for o in case["ops"]))


def same_up_to_ties(C, model, names, ref, op):
    C = np.asarray(C)
    require(C.shape == (model.shape[0], len(names)),
            "%s: coordinates of shape %r", op, C.shape)
    got = sorted((list(map(float, b)), C[:, i].tolist())
                 for i, b in enumerate(ref))
    want = sorted((list(map(float, b)), model[:, n].tolist())
                  for n, b in zip(names, ref))
    require(got == want, "%s: coordinates do not follow their bars", op)
