"""Algebra of chains in local format, against a model of dictionaries."""
import numpy as np

from .. import algen
from ..core import require, sut, Violation

RULE = "an operation combined two chains with different references"
BUDGET = {"quick": {"examples": 100000, "wall": 15},
          "thorough": {"examples": 1000000, "wall": 500}}
ASSUMPTIONS = ["references are ascending and not repeated"]


def entry(s, gens, size, p):
    ref = [g for g in range(gens) if s.chance(50)]
    return [ref, algen.matrix(s, len(ref), size, p)]


def generate(s, tier):
    p = s.pick([2, 3, 5, 7, 31])
    gens = s.int(1, 5)
    sizes = [s.int(1, 4) for _ in range(s.int(1, 4))]
    chains = [[entry(s, gens, m, p) for m in sizes]
              for _ in range(s.int(2, 3))]
    ops = []
    n = len(chains)
    for _ in range(s.int(1, 6)):
        op = s.pick(["add", "add", "iadd", "minus", "sums", "copy", "entry",
                     "poke", "bad"])
        o = [op, s.int(0, n - 1), s.int(0, n - 1)]
        if op == "sums":
            o.append(algen.matrix(s, s.int(1, 4), gens, p))
        elif op == "entry":
            k = s.int(0, len(sizes) - 1)
            o += [k, entry(s, gens, sizes[k], p)]
        elif op == "bad":
            o += [s.int(0, 4)]
        if op in ("add", "copy"):
            n += 1
        ops.append(o)
    return {"p": p, "gens": gens, "sizes": sizes, "chains": chains,
            "ops": ops, "build": s.pick(["args", "entries"])}


def model_of(chain, p):
    return {(k, g, m): row[m] % p for k, (ref, rows) in enumerate(chain)
            for g, row in zip(ref, rows) for m in range(len(row))
            if row[m] % p}


def read(ch, sizes, p, what):
    require(len(ch.ref) == len(ch.coord) == len(sizes),
            "%s: %d references for %d places", what, len(ch.ref), len(sizes))
    out = {}
    for k, ref in enumerate(ch.ref):
        r = [int(g) for g in ref]
        require(all(a < b for a, b in zip(r, r[1:])),
                "%s: references %r are not ascending", what, r)
        if not r:
            require(np.size(ch.coord[k]) == 0,
                    "%s: coordinates without references", what)
            continue
        co = np.asarray(ch.coord[k], dtype=float)
        require(co.shape == (len(r), sizes[k]),
                "%s: coordinates of shape %r", what, co.shape)
        for g, row in zip(r, co):
            for m, c in enumerate(row):
                require(c == int(c), "%s: not an integer", what)
                if int(c) % p:
                    out[(k, g, m)] = int(c) % p
    return out


def plus(a, b, p):
    out = dict(a)
    for k, c in b.items():
        out[k] = (out.get(k, 0) + c) % p
    return {k: c for k, c in out.items() if c}


def check(case, ctx):
    from permaviss.spectral_sequence.local_chains_class import local_chains
    p, sizes = case["p"], case["sizes"]

    def build(chain):
        refs = [np.array(r, dtype=int) if r else [] for r, _ in chain]
        cos = [np.array(c, dtype=float) if c else [] for _, c in chain]
        if case["build"] == "args":
            ch = local_chains(refs, cos)
            for r, c in zip(refs, cos):     # the object keeps copies
                if len(r):
                    r += 7
                    c += 1
        else:
            ch = local_chains(len(sizes))
            for k, (r, c) in enumerate(zip(refs, cos)):
                ch.add_entry(k, r, c)
        ch.p = p
        return ch

    with sut("local_chains"):
        real = [build(c) for c in case["chains"]]
        model = [model_of(c, p) for c in case["chains"]]
        compare(real, model, sizes, p, "construction")
        for op, a, b, *rest in case["ops"]:
            if op in ("add", "iadd"):
                if [list(map(int, r)) for r in real[a].ref] != [
                        list(map(int, r)) for r in real[b].ref]:
                    ctx.nontrivial = True
                c = real[a] + real[b]
                m = plus(model[a], model[b], p)
                if op == "iadd":
                    real[a], model[a] = c, m
                else:
                    real.append(c)
                    model.append(m)
                c.p = p
            elif op == "minus":
                real[a].minus()
                model[a] = {k: -c % p for k, c in model[a].items()}
            elif op == "sums":
                S = rest[0]
                c = local_chains.sums(real[a], np.array(S, dtype=float))
                m = {}
                for (k, g, x), v in model[a].items():
                    for r, row in enumerate(S):
                        y = (k, r, x)
                        m[y] = (m.get(y, 0) + row[g] * v) % p
                m = {k: v for k, v in m.items() if v}
                require(read(c, sizes, p, "sums") == m, "sums: wrong result")
            elif op == "copy":
                cs = local_chains.copy_seq([real[a], real[b]])
                require(len(cs) == 2, "copy_seq: %d copies", len(cs))
                require(read(cs[1], sizes, p, "copy_seq") == model[b],
                        "copy_seq: wrong copy")
                cs[0].p = p
                real.append(cs[0])
                model.append(dict(model[a]))
            elif op == "entry":
                k, (ref, rows) = rest
                real[a].add_entry(
                    k, np.array(ref, dtype=int) if ref else [],
                    np.array(rows, dtype=float) if ref else [])
                if ref:
                    model[a] = {x: c for x, c in model[a].items()
                                if x[0] != k}
                    model[a].update({
                        (k, g, m): v for g, row in zip(ref, rows)
                        for m, v in enumerate(row) if v})
            elif op == "poke":
                # change one object in place: no other object may follow
                for k, co in enumerate(real[a].coord):
                    if len(real[a].ref[k]):
                        co += 1
                        g = int(real[a].ref[k][0])
                        for m in range(sizes[k]):
                            for g in map(int, real[a].ref[k]):
                                x = (k, g, m)
                                v = (model[a].pop(x, 0) + 1) % p
                                if v:
                                    model[a][x] = v
            else:
                bad(local_chains, real[a], rest[0])
            compare(real, model, sizes, p, op)
    ctx.label(*("op:" + o[0] for o in case["ops"]))


def bad(cls, ch, kind):
    try:
        if kind == 0:
            ch.add_entry(0, [0, 1], np.ones((3, 2)))
        elif kind == 1:
            ch.add_entry(0, [0], [])
        elif kind == 2:
            cls([[0]], [np.ones((2, 1))])
        elif kind == 3:
            cls([[0], [1]], [np.ones((1, 1))])
        else:
            cls("three")
    except ValueError:
        return
    raise Violation("malformed input %d was accepted" % kind)


def compare(real, model, sizes, p, what):
    for n, (a, b) in enumerate(zip(real, model)):
        require(read(a, sizes, p, what) == b,
                "after %s: chain %d is not what it should be", what, n)
