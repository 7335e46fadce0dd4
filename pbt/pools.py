"""Stand-ins for multiprocessing.Pool.

A real pool sends the function to its workers by pickling it, so a worker
works on a copy of the caller's data and hands back a copy of its result.  The
stand-in keeps that (function and results go through pickle), and evaluates
the items one after another in this process, in an order the harness chooses.
"""
import multiprocessing
import multiprocessing.pool
import pickle

_RealPoolClass = multiprocessing.pool.Pool


def RealPool(processes, initializer, initargs):
    # the methods of the real class look it up in its module
    multiprocessing.pool.Pool = _RealPoolClass
    return _RealPoolClass(processes, initializer, initargs,
                          context=multiprocessing.get_context("fork"))


class Schedule:
    """How the next map calls are evaluated.

    order(n)  -> permutation in which n items are evaluated
    chunk     -> number of consecutive items sharing one copy of the function
                 (None: all of them)
    hook()    -> called on every map call, before any item is evaluated
    """
    order = None
    chunk = None
    hook = None
    real = False
    calls = 0


SCHED = Schedule()


def reset():
    SCHED.order = SCHED.chunk = SCHED.hook = None
    SCHED.real = False
    SCHED.calls = 0
    multiprocessing.pool.Pool = PoolStandIn


class _Done:
    def __init__(self, value):
        self._v = value

    def get(self, timeout=None):
        return self._v

    def wait(self, timeout=None):
        return None

    def ready(self):
        return True

    def successful(self):
        return True


class PoolStandIn:
    def __init__(self, processes=None, initializer=None, initargs=(),
                 *args, **kwargs):
        self._real = RealPool(processes, initializer, initargs) \
            if SCHED.real else None
        if initializer is not None and self._real is None:
            initializer(*initargs)

    def _eval(self, func, argss, kwds=None):
        argss = list(argss)
        SCHED.calls += 1
        if SCHED.hook is not None:
            SCHED.hook()
        blob = pickle.dumps((func, kwds or {}), -1)
        n = len(argss)
        order = list(range(n)) if SCHED.order is None else SCHED.order(n)
        out = [None] * n
        f = kw = None
        for k, i in enumerate(order):
            if f is None or (SCHED.chunk and k % SCHED.chunk == 0):
                f, kw = pickle.loads(blob)
            out[i] = pickle.loads(pickle.dumps(f(*argss[i], **kw), -1))
        return out

    def map(self, func, iterable, chunksize=None):
        if self._real is not None:
            return self._real.map(func, iterable, chunksize)
        return self._eval(func, [(x,) for x in iterable])

    def starmap(self, func, iterable, chunksize=None):
        if self._real is not None:
            return self._real.starmap(func, iterable, chunksize)
        return self._eval(func, [tuple(x) for x in iterable])

    def imap(self, func, iterable, chunksize=1):
        return iter(self.map(func, iterable))

    def imap_unordered(self, func, iterable, chunksize=1):
        if self._real is not None:
            return self._real.imap_unordered(func, iterable, chunksize)
        items = [(x,) for x in iterable]
        out = self._eval(func, items)
        order = range(len(items)) if SCHED.order is None \
            else SCHED.order(len(items))
        return iter([out[i] for i in order])

    def map_async(self, func, iterable, chunksize=None, callback=None,
                  error_callback=None):
        r = self.map(func, iterable)
        if callback is not None:
            callback(r)
        return _Done(r)

    def starmap_async(self, func, iterable, chunksize=None, callback=None,
                      error_callback=None):
        r = self.starmap(func, iterable)
        if callback is not None:
            callback(r)
        return _Done(r)

    def apply(self, func, args=(), kwds=None):
        return self._eval(func, [tuple(args)], kwds)[0]

    def apply_async(self, func, args=(), kwds=None, callback=None,
                    error_callback=None):
        r = self.apply(func, args, kwds)
        if callback is not None:
            callback(r)
        return _Done(r)

    def close(self):
        if self._real is not None:
            self._real.close()

    def terminate(self):
        if self._real is not None:
            self._real.terminate()

    def join(self):
        if self._real is not None:
            self._real.join()

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.terminate()


def install():
    multiprocessing.Pool = PoolStandIn
    multiprocessing.pool.Pool = PoolStandIn
