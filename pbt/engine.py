"""Random generation with integrated shrinking.

A generated case is a function of a sequence of bounded integer choices.  The
search draws the choices from a seeded pseudo-random generator; a failing case
is shrunk by editing its choice sequence (deleting blocks, zeroing blocks,
lowering single choices) and generating again, so that shrunk cases are always
valid ones.
"""
import json
import random
import time

from .core import Src


class Choices(Src):
    """Source of choices: a given prefix, then random ones (or the lowest)."""

    def __init__(self, rng=None, prefix=()):
        self._rng = rng
        self._prefix = prefix
        self.used = []

    def int(self, lo, hi):
        n = hi - lo
        if n <= 0:
            return lo
        i = len(self.used)
        if i < len(self._prefix):
            k = min(self._prefix[i], n)
        elif self._rng is None:
            k = 0
        else:
            t = self._rng.random()
            if t < .02:
                k = 0
            elif t < .04:
                k = n
            else:
                k = self._rng.randint(0, n)
        self.used.append(k)
        return lo + k


def key(used):
    return (len(used), used)


def shrink(make, fails, used, seconds):
    """make(prefix) -> (case, used); fails(case) -> message or None.
    Returns (case, message) for the smallest failing case that was found."""
    end = time.time() + seconds
    best, best_msg, best_case = list(used), None, None
    tried = set()

    def attempt(cand):
        nonlocal best, best_msg, best_case
        if time.time() > end:
            return False
        try:
            case, u = make(cand)
        except Exception:
            return False
        if key(u) >= key(best):
            return False
        h = json.dumps(case, sort_keys=True)
        if h in tried:
            return False
        tried.add(h)
        msg = fails(case)
        if msg is None:
            return False
        best, best_msg, best_case = u, msg, case
        return True

    improved = True
    while improved and time.time() < end:
        improved = False
        for size in (32, 16, 8, 4, 3, 2, 1):
            i = len(best) - size
            while i >= 0 and time.time() < end:
                if attempt(best[:i] + best[i + size:]):
                    improved = True
                    i = min(i, len(best) - size)
                else:
                    i -= 1 if size < 8 else size // 2
        for size in (8, 4, 2, 1):
            i = 0
            while i < len(best) and time.time() < end:
                if any(best[i:i + size]):
                    improved |= attempt(
                        best[:i] + [0] * size + best[i + size:])
                i += size
        i = 0
        while i < len(best) and time.time() < end:
            lo = 0
            while i < len(best) and best[i] > lo and time.time() < end:
                mid = (lo + best[i]) // 2
                if attempt(best[:i] + [mid] + best[i + 1:]):
                    improved = True
                else:
                    lo = mid + 1
            i += 1
    return best_case, best_msg


def generator(seed):
    return random.Random(seed)
