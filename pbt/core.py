"""What every property module uses: draws, verdicts, comparisons."""
import contextlib
import hashlib
import io
import json
import signal
import sys


class Violation(Exception):
    """The code under test broke the property on a valid input."""


class _Hang(BaseException):
    pass


CPU_LIMIT = 60.0      # CPU seconds the code under test may use on one case
WALL_LIMIT = 240.0    # and seconds, should it sleep


def _on_timer(signum, frame):
    raise _Hang()


@contextlib.contextmanager
def sut(what="", cpu=None):
    """Everything that runs the code under test, or looks at its output, runs
    inside this context: an exception here is a violation (every input that is
    generated is valid), an exception outside is an error of the harness."""
    old = signal.signal(signal.SIGPROF, _on_timer)
    old2 = signal.signal(signal.SIGALRM, _on_timer)
    signal.setitimer(signal.ITIMER_PROF, cpu or CPU_LIMIT)
    signal.setitimer(signal.ITIMER_REAL, 4 * cpu if cpu else WALL_LIMIT)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    except Violation:
        raise
    except _Hang:
        raise Violation("%s: no result within %g CPU seconds"
                        % (what, cpu or CPU_LIMIT)) from None
    except Exception as e:
        tb = e.__traceback__
        where = ""
        while tb is not None:
            f = tb.tb_frame.f_code
            if "permaviss" in f.co_filename:
                where = " in %s" % f.co_name
            tb = tb.tb_next
        raise Violation("%s: %s%s: %s" % (
            what, type(e).__name__, where, str(e)[:200])) from e
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGPROF, old)
        signal.signal(signal.SIGALRM, old2)


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Src:
    """Random choices, all of them derived from int(lo, hi)."""

    def int(self, lo, hi):
        raise NotImplementedError

    def pick(self, seq):
        return seq[self.int(0, len(seq) - 1)]

    def chance(self, percent):
        return self.int(0, 99) >= 100 - percent

    def frac(self, lo, hi, steps=1000):
        """A number in [lo, hi] on a grid of that many steps."""
        return lo + (hi - lo) * self.int(0, steps) / steps

    def perm(self, n):
        out = list(range(n))
        for i in range(n - 1):
            j = self.int(i, n - 1)
            out[i], out[j] = out[j], out[i]
        return out


class RngSrc(Src):
    """The same choices from a seeded pseudo-random generator (used only to
    profile generators from the command line)."""

    def __init__(self, rng):
        self._r = rng

    def int(self, lo, hi):
        return self._r.randint(lo, hi)


def digest(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


# ------------------------------------------------------------- comparisons
class Snap:
    """Identifies radii that differ by rounding only."""

    def __init__(self, values, tol):
        self.tol = tol
        self.vals = []
        for v in sorted(float(x) for x in values):
            if not self.vals or v - self.vals[-1] > tol:
                self.vals.append(v)

    def __call__(self, x):
        import bisect
        x = float(x)
        i = bisect.bisect_left(self.vals, x - 2 * self.tol)
        if i < len(self.vals) and abs(self.vals[i] - x) <= 2 * self.tol:
            return i
        return "not a critical radius: %r" % x


def bars_of(basis):
    """Bars of a barcode_basis (or array) as a list of pairs of floats."""
    import numpy as np
    bc = np.asarray(getattr(basis, "barcode", basis), dtype=float)
    if bc.size == 0:
        return []
    require(bc.ndim == 2 and bc.shape[1] == 2,
            "a barcode is not a list of pairs: shape %r", bc.shape)
    return [(float(a), float(b)) for a, b in bc]


def snapped(bars, snap):
    """Multiset of bars with snapped ends, empty bars left out."""
    out = {}
    for a, b in bars:
        k = (snap(a), snap(b))
        if k[0] != k[1]:
            out[k] = out.get(k, 0) + 1
    return out


def same_bars(got, want, snap, what):
    g, w = snapped(got, snap), snapped(want, snap)
    if g != w:
        raise Violation("%s: got bars %r, expected %r" % (
            what, sorted(got)[:12], sorted(want)[:12]))


def ints(matrix, p, what="matrix"):
    """Matrix (array-like, 2D) as a list of rows of residues mod p; complains
    about entries that are not integers."""
    import numpy as np
    M = np.asarray(matrix, dtype=float)
    if M.size == 0:
        return [[] for _ in range(M.shape[0] if M.ndim else 0)]
    R = np.rint(M)
    require(bool(np.all(np.isfinite(M))) and bool(np.all(np.abs(M - R) == 0)),
            "%s has entries that are not integers", what)
    return [[int(x) % p for x in row] for row in R]


def log(*a):
    print(*a, file=sys.stderr, flush=True)
