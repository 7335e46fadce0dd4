"""Arithmetic mod c, inverses mod p."""
import math

import numpy as np

from .. import oracle as O
from ..core import require, sut, Violation

RULE = "an inverse of a number that is not 0 or 1 mod p, or a sum that wraps"
BUDGET = {"quick": {"examples": 400000, "wall": 15},
          "thorough": {"examples": 800000, "wall": 500}}
ASSUMPTIONS = ["numbers stay within the exact range of their type"]

PRIMES = [q for q in range(2, 400) if O.is_prime(q)] + [
    1009, 7919, 65521, 65537, 999983, 2147483647, 2305843009213693951]


def generate(s, tier):
    what = s.pick(["inv", "inv", "composite", "add", "arrays"])
    if what == "inv":
        p = s.pick(PRIMES)
        t = s.pick(["int", "int", "np", "float"])
        if t != "int" and p > 10 ** 6:
            p = s.pick(PRIMES[:60])
        a = s.pick([s.int(-3 * p, 3 * p), s.int(1, p - 1), s.int(-p, p),
                    s.int(0, 40) * p])
        return {"what": what, "a": a, "p": p, "t": t}
    if what == "composite":
        p = s.pick([s.int(1, 20) * s.int(2, 20) + 4,
                    s.pick(PRIMES[:80]) * s.pick(PRIMES[:80]),
                    s.pick(PRIMES) * s.pick(PRIMES),
                    s.pick([561, 1105, 1729, 41041, 825265, 321197185])])
        a = s.pick([s.int(1, 200), s.int(1, p - 1), s.int(-p, p)])
        q = s.pick(PRIMES)
        if p % q == 0 and s.chance(50):
            a = q * s.int(1, p // q)
        return {"what": what, "a": a, "p": p}
    c = s.pick([2, 3, 4, 5, 6, 7, 11, 12, 100, 101, 1009])
    if what == "add":
        return {"what": what, "c": c, "a": s.int(-5 * c, 5 * c),
                "b": s.int(-5 * c, 5 * c)}
    sh = s.pick([[4], [2, 3], [1, 5]])
    n = sh[0] * (sh[1] if len(sh) > 1 else 1)
    return {"what": what, "c": c, "shape": sh, "float": s.chance(50),
            "a": [s.int(-2 * c, 2 * c) for _ in range(n)],
            "b": [s.int(-2 * c, 2 * c) for _ in range(n)]}


def check(case, ctx):
    from permaviss.gauss_mod_p.arithmetic_mod_p import (
        add_arrays_mod_c, add_mod_c, inv_mod_p)
    what = case["what"]
    ctx.label(what)
    with sut(what):
        if what in ("inv", "composite"):
            a, p = case["a"], case["p"]
            x = {"int": int, "np": np.int64, "float": np.float64}[
                case.get("t", "int")](a)
            try:
                m = inv_mod_p(x, p)
            except ValueError:
                if math.gcd(a, p) == 1 and O.is_prime(p):
                    raise Violation("no inverse of %d mod %d" % (a, p))
                m = None
            if m is not None:
                require(math.gcd(a, p) == 1,
                        "%d has no inverse mod %d, got %r", a, p, m)
                require(m == int(m) and 0 <= m < p,
                        "inverse %r is not a residue", m)
                require(int(m) * a % p == 1 % p,
                        "%r is not the inverse of %d mod %d", m, a, p)
            ctx.nontrivial = a % p not in (0, 1)
        elif what == "add":
            a, b, c = case["a"], case["b"], case["c"]
            require(add_mod_c(a, b, c) == (a + b) % c, "%d + %d mod %d", a, b,
                    c)
            ctx.nontrivial = not 0 <= a + b < c
        else:
            c = case["c"]
            dt = float if case["float"] else int
            A = np.array(case["a"], dtype=dt).reshape(case["shape"])
            B = np.array(case["b"], dtype=dt).reshape(case["shape"])
            A0, B0 = A.copy(), B.copy()
            for f in (add_arrays_mod_c, add_mod_c):
                got = np.asarray(f(A, B, c))
                want = [(x + y) % c for x, y in zip(case["a"], case["b"])]
                require(got.shape == A.shape and
                        got.ravel().tolist() == want, "sum of arrays")
                require(np.array_equal(A, A0) and np.array_equal(B, B0),
                        "input changed")
            ctx.nontrivial = True
