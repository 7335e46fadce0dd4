"""The Mayer-Vietoris double complex of a cover, and its spectral sequence.

Everything is computed from the points of each intersection and from the nerve
by the textbook definitions; the only things taken from the code under test
are the nerve and the identification numbers of the points.
"""
import itertools

from . import geom, oracle as O


class Total:
    """Basis elements (column, nerve simplex, local simplex of global point
    numbers), with the total differential  boundary + (-1)^dim * Cech."""

    def __init__(self, case, nerve, points_IN):
        self.p = p = case["p"]
        D = geom.dist_matrix(geom.points(case))
        max_r, max_dim = case["max_r"], case["max_dim"]
        self.max_dim = max_dim
        self.nerve = [[(v,) for v in range(int(nerve[0]))]] + [
            [tuple(int(v) for v in t) for t in lev] for lev in nerve[1:]]
        while len(self.nerve) > 1 and not self.nerve[-1]:
            self.nerve.pop()
        self.columns = len(self.nerve)
        self.birth = {}
        memo = {}
        for i, lev in enumerate(self.nerve):
            for k in range(len(lev)):
                S = tuple(int(v) for v in points_IN[i][k])
                if S not in memo:
                    memo[S] = self._local(S, D, max_r, max_dim)
                for t, b in memo[S]:
                    self.birth[(i, k, t)] = b
        self.face = []
        for i, lev in enumerate(self.nerve):
            if i == 0:
                self.face.append(None)
                continue
            pos = {t: n for n, t in enumerate(self.nerve[i - 1])}
            self.face.append([[(pos[t[:m] + t[m + 1:]], (-1) ** m)
                               for m in range(len(t))] for t in lev])
        self._d = {}

    @staticmethod
    def _local(S, D, max_r, max_dim):
        S = sorted(S)
        out = []
        lev = [((v,), 0.0) for v in S]
        out += lev
        for _ in range(max_dim):
            nxt = []
            for t, b in lev:
                for v in S:
                    if v > t[-1]:
                        m = b
                        for u in t:
                            d = float(D[u][v])
                            if d >= max_r:
                                break
                            if d > m:
                                m = d
                        else:
                            nxt.append((t + (v,), m))
            out += nxt
            lev = nxt
        return out

    def size(self):
        return len(self.birth)

    def d(self, x):
        """Total boundary of a basis element, as {element: residue}."""
        if x not in self._d:
            i, k, t = x
            p = self.p
            out = {}
            if len(t) > 1:
                for m in range(len(t)):
                    out[(i, k, t[:m] + t[m + 1:])] = (-1) ** m % p
            if i > 0:
                s = (-1) ** (len(t) - 1)
                for f, c in self.face[i][k]:
                    out[(i - 1, f, t)] = c * s % p
            self._d[x] = out
        return self._d[x]

    def at(self, r):
        return [x for x, b in self.birth.items() if b <= r]

    def reduce(self, r, top):
        """R = D V at radius r, with elements ordered by column; total degree
        at most top.  Returns {element: (V column, R column, pivot or None)}"""
        p = self.p
        els = [x for x in self.at(r) if x[0] + len(x[2]) - 1 <= top]
        els.sort(key=lambda x: (x[0], len(x[2]), x[1], x[2]))
        num = {x: n for n, x in enumerate(els)}
        owner = {}
        out = {}
        for x in els:
            col = {num[y]: c for y, c in self.d(x).items()}
            v = {num[x]: 1}
            piv = None
            while col:
                piv = max(col)
                if piv not in owner:
                    break
                ov, oc = owner[piv]
                q = col[piv] * O.inv(oc[piv], p) % p
                add(col, oc, -q, p)
                add(v, ov, -q, p)
                piv = None
            if piv is not None:
                owner[piv] = (v, col)
            out[x] = (v, col, None if piv is None else els[piv])
        return els, out


def add(a, b, q, p):
    for i, c in b.items():
        v = (a.get(i, 0) + q * c) % p
        if v:
            a[i] = v
        else:
            a.pop(i, None)


class Span:
    """Span of sparse vectors {key: residue}; keys are comparable."""

    def __init__(self, p):
        self.p = p
        self.rows = {}

    def copy(self):
        s = Span(self.p)
        s.rows = dict(self.rows)
        return s

    def insert(self, v):
        """True when v is not in the span yet."""
        p = self.p
        v = {k: c % p for k, c in v.items() if c % p}
        while v:
            k = max(v)
            if k not in self.rows:
                iv = O.inv(v[k], p)
                self.rows[k] = {a: c * iv % p for a, c in v.items()}
                return True
            add(v, self.rows[k], -v[k], p)
        return False

    def dim(self):
        return len(self.rows)


def page_spaces(els, red, k, i, j, p):
    """(Z, B): spanning sets of the projections of the k-cycles and of the
    boundaries that page k (k >= 1) divides out, at column i and row j, to
    the chains of column i."""
    Z, B = [], []
    for x, (v, col, piv) in red.items():
        ci = x[0]
        if ci + len(x[2]) - 1 == i + j and ci <= i:
            if piv is None or piv[0] <= i - k:
                Z.append({els[n]: c for n, c in v.items()
                          if els[n][0] == i})
        elif ci + len(x[2]) - 1 == i + j + 1 and ci <= i + k - 1:
            if piv is not None and piv[0] <= i:
                B.append({els[n]: c for n, c in col.items()
                          if els[n][0] == i})
    return [z for z in Z if z], [b for b in B if b]


__all__ = ["Total", "Span", "add", "page_spaces"]
assert itertools is not None
