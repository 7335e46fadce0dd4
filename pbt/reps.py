"""Representatives of the spectral sequence in the total complex, decoded into
chains on simplices of global point numbers."""
import numpy as np

from .core import require


def sorted_sign(t):
    """(sign of the permutation that sorts t, sorted tuple)"""
    t = list(t)
    sign = 1
    for i in range(len(t)):
        for j in range(i + 1, len(t)):
            if t[i] > t[j]:
                sign = -sign
    return sign, tuple(sorted(t))


class Decoder:
    """Reads chains in the local format of a spectral sequence."""

    def __init__(self, ss):
        self.ss = ss
        self.p = ss.p
        self._names = {}

    def names(self, i, k, j):
        """[(sign, simplex)] for the local j-simplices of cover element k of
        column i."""
        key = (i, k, j)
        if key not in self._names:
            IN = [int(v) for v in self.ss.points_IN[i][k]]
            C = self.ss.subcomplexes[i][k]
            if j == 0:
                out = [(1, (v,)) for v in IN[:int(C[0])]]
            else:
                out = [sorted_sign([IN[int(v)] for v in t]) for t in C[j]]
            self._names[key] = out
        return self._names[key]

    def chain(self, chains, i, j, n):
        """List of n dictionaries {(i, k, simplex): residue}."""
        out = [{} for _ in range(n)]
        require(len(chains.ref) == len(chains.coord),
                "references and coordinates of different lengths")
        for k, ref in enumerate(chains.ref):
            if len(ref) == 0:
                continue
            names = self.names(i, k, j)
            co = np.asarray(chains.coord[k], dtype=float)
            require(co.shape == (len(ref), len(names)),
                    "local chains of shape %r for %d references and %d "
                    "simplices", co.shape, len(ref), len(names))
            require(bool(np.all(co == np.rint(co))),
                    "a coefficient is not an integer")
            for r, row in zip(ref, co):
                for m in np.nonzero(row)[0]:
                    c = int(row[m]) * names[m][0] % self.p
                    if c:
                        x = (i, k, names[m][1])
                        out[int(r)][x] = (out[int(r)].get(x, 0) + c) % self.p
        return [{x: c for x, c in d.items() if c} for d in out]

    def reps(self, page, i, j):
        """For every class of page page+1 at column i, row j, its components
        x_0, x_1, ... in columns i, i-1, ..."""
        n = int(self.ss.Hom[page][i][j].dim)
        if n == 0:
            return []
        comp = [self.chain(c, i - m, j + m, n)
                for m, c in enumerate(self.ss.Hom_reps[page][i][j])]
        return [[c[a] for c in comp] for a in range(n)]


class Signs:
    """Orientation conventions of the code: it may use the opposite of a
    differential in a whole dimension."""

    def __init__(self, ss, T):
        self.simp, self.nerve = {}, {}
        p = T.p
        for i in range(T.columns):
            for k in range(len(T.nerve[i])):
                C = ss.subcomplexes[i][k]
                for j in range(1, len(C)):
                    if j in self.simp or len(C[j]) == 0:
                        continue
                    t = [int(v) for v in C[j][0]]
                    f = t[1:]
                    faces = [[v] for v in range(int(C[0]))] if j == 1 else [
                        [int(v) for v in u] for u in C[j - 1]]
                    c = int(ss.zero_diff[i][k][j][faces.index(f)][0]) % p
                    self.simp[j] = 1 if c == 1 % p else -1
        for i in range(1, T.columns):
            t = T.nerve[i][0]
            c = int(ss.nerve_differentials[i][
                T.nerve[i - 1].index(t[1:])][0]) % p
            self.nerve[i] = 1 if c == 1 % p else -1


def total_boundary(T, x, signs):
    """Boundary of a chain {element: residue} with the code's conventions."""
    p = T.p
    out = {}
    for (i, k, t), c in x.items():
        e = signs.simp.get(len(t) - 1, 1)
        if len(t) > 1:
            for m in range(len(t)):
                y = (i, k, t[:m] + t[m + 1:])
                out[y] = (out.get(y, 0) + c * e * (-1) ** m) % p
        if i > 0:
            e = signs.nerve[i] * (-1) ** (len(t) - 1)
            for f, q in T.face[i][k]:
                y = (i - 1, f, t)
                out[y] = (out.get(y, 0) + c * e * q) % p
    return {y: c for y, c in out.items() if c}


def project(components, p):
    """Image of a chain of the total complex in the global Rips complex."""
    out = {}
    for x in components:
        for (i, _, t), c in x.items():
            if i == 0:
                out[t] = (out.get(t, 0) + c) % p
    return {t: c for t, c in out.items() if c}


def rips_boundary(z, p):
    out = {}
    for t, c in z.items():
        if len(t) > 1:
            for m in range(len(t)):
                f = t[:m] + t[m + 1:]
                out[f] = (out.get(f, 0) + c * (-1) ** m) % p
    return {t: c for t, c in out.items() if c}
