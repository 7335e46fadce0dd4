"""Flag complexes, and the nerve of a cover by hypercubes."""
import itertools

import numpy as np

from .. import oracle as O
from ..core import require, sut, Violation

RULE = "a complex with a simplex of dimension 2 or more"
BUDGET = {"quick": {"examples": 17000, "wall": 18},
          "thorough": {"examples": 150000, "wall": 500}}
ASSUMPTIONS = ["edges are given once, with ascending vertices"]


def generate(s, tier):
    if s.chance(60):
        big = s.chance(6)
        n = s.int(9, 13) if big else s.int(1, 8)
        d = s.pick([30, 60, 90])
        E = [[i, j] for j in range(n) for i in range(j) if s.chance(d)]
        E = [E[i] for i in s.perm(len(E))] if s.chance(70) else E
        if s.chance(1):
            # nearly complete: cliques of high dimension
            n = s.int(8, 10)
            E = [[i, j] for j in range(n) for i in range(j) if s.chance(97)]
            return {"what": "flag", "n": n, "E": E, "max_dim": s.int(6, 10),
                    "form": "array"}
        return {"what": "flag", "n": n, "E": E,
                "max_dim": s.int(2, 3) if big else s.int(-1, 6),
                "form": s.pick(["array", "array", "float", "list"])}
    if tier == "thorough" and s.int(0, 4999) == 0:
        # takes a minute
        div = [2, 2, 2, 2]
        if s.chance(30):
            div.insert(s.int(0, 4), 1)
        return {"what": "nerve", "div": div, "array": s.chance(40)}
    dim = s.pick([1, 2, 2, 3])
    top = {1: 6, 2: 4, 3: 3}[dim]
    if dim < 3 and s.chance(6):
        top = {1: 40, 2: 7}[dim]
    div = [s.int(1, top) for _ in range(dim)]
    while dim == 3 and sum(d > 1 for d in div) == 3 and sum(div) > 6:
        div[div.index(max(div))] -= 1
    if dim == 2 and s.chance(20):
        div.insert(s.int(0, 2), 1)
        if s.chance(30):
            div.insert(s.int(0, 3), 1)
    return {"what": "nerve", "div": div, "array": s.chance(40)}


def same_complex(C, want, upto, what):
    """C in the format of the code against levels of sets of tuples."""
    for d in range(1, upto + 1):
        got = [tuple(int(v) for v in t) for t in C[d]]
        for t, u in zip(got, C[d]):
            require(all(float(a) == b for a, b in zip(u, t)),
                    "%s: vertices are not integers", what)
            require(all(a < b for a, b in zip(t, t[1:])),
                    "%s: vertices of %r are not ascending", what, t)
        require(len(set(got)) == len(got), "%s: a %d-simplex is repeated",
                what, d)
        w = set(want[d]) if d < len(want) else set()
        require(set(got) == w, "%s: %d-simplices: missing %r, unexpected %r",
                what, d, sorted(w - set(got))[:4], sorted(set(got) - w)[:4])


def check(case, ctx):
    from permaviss.simplicial_complexes.flag_complex import flag_complex
    from permaviss.covers.cubical_cover import (
        next_hypercube, nerve_hypercube_cover)
    ctx.label(case["what"])
    if case["what"] == "flag":
        n, E, md = case["n"], case["E"], case["max_dim"]
        edges = set(map(tuple, E))
        want = O.cliques(n, lambda a, b: (min(a, b), max(a, b)) in edges,
                         max(md, 2))
        with sut("flag_complex"):
            G = E if case["form"] == "list" else np.array(
                E, dtype=float if case["form"] == "float" else int).reshape(
                    len(E), 2)
            keep = np.copy(G)
            try:
                C = flag_complex(G, n, md)
            except ValueError:
                if md >= 0:
                    raise
                return
            if md < 0:
                raise Violation("no ValueError for dimension %d" % md)
            require(np.array_equal(keep, np.array(G)), "input changed")
            require(len(C) == md + 1 and int(C[0]) == n, "wrong format")
            same_complex(C, want, md, "flag complex")
        ctx.nontrivial = md >= 2 and bool(want[2])
        return
    div = case["div"]
    cells = list(itertools.product(*[range(d) for d in div]))
    want = O.cliques(len(cells), lambda a, b: all(
        abs(x - y) <= 1 for x, y in zip(cells[a], cells[b])), 2 ** len(div))
    with sut("nerve_hypercube_cover", cpu=600 if len(want) > 10 else None):
        N = nerve_hypercube_cover(np.array(div) if case["array"] else div)
        require(int(N[0]) == len(cells), "%d cover elements, expected %d",
                int(N[0]), len(cells))
        k = max(d for d, lev in enumerate(want) if lev)
        require(len(N) > k, "the nerve stops below dimension %d", k)
        same_complex(N, want, len(N) - 1, "nerve")
        pos = [0] * len(div)
        for c in cells:
            require(tuple(pos) == c, "next_hypercube reaches %r, expected %r",
                    pos, c)
            next_hypercube(pos, div)
    ctx.nontrivial = len(want) > 2 and bool(want[2])
