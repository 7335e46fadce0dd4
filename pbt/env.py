"""Loads the code under test from /repo's working tree.

* numpy and scipy are imported first, then bytecode caches are
  switched off, so that a stale ``__pycache__`` can never stand in for the
  sources that are in the tree now.
* ``multiprocessing.Pool`` is replaced, before permaviss is imported, by a
  stand-in that the harness controls (see pools.py): forking eight processes
  for every map call would make each case a hundred times slower, and it lets
  the schedule property own the schedule.
"""
import os
import sys
import tempfile
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")

ENV = {
    "PYTHONHASHSEED": "0",
    "PYTHONDONTWRITEBYTECODE": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "OMP_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "MPLBACKEND": "Agg",
}

warnings.filterwarnings("ignore")


def load():
    sys.dont_write_bytecode = True
    import numpy  # noqa: F401
    import scipy.spatial.distance  # noqa: F401
    from . import pools
    pools.install()
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), "no-such-pycache")
    src = os.path.join(REPO, "src")
    sys.path.insert(0, src)
    import permaviss
    if not os.path.realpath(permaviss.__file__).startswith(
            os.path.realpath(src) + os.sep):
        raise RuntimeError("permaviss was not imported from " + src)
    # import everything now, so that later imports cannot hit the cache
    import permaviss.gauss_mod_p.arithmetic_mod_p  # noqa: F401
    import permaviss.gauss_mod_p.gauss_mod_p  # noqa: F401
    import permaviss.gauss_mod_p.functions  # noqa: F401
    import permaviss.simplicial_complexes.differentials  # noqa: F401
    import permaviss.simplicial_complexes.flag_complex  # noqa: F401
    import permaviss.simplicial_complexes.vietoris_rips  # noqa: F401
    import permaviss.persistence_algebra.barcode_bases  # noqa: F401
    import permaviss.persistence_algebra.image_kernel  # noqa: F401
    import permaviss.persistence_algebra.module_persistence_homology  # noqa: F401,E501
    import permaviss.persistence_algebra.PH_classic  # noqa: F401
    import permaviss.covers.cubical_cover  # noqa: F401
    import permaviss.sample_point_clouds.examples  # noqa: F401
    import permaviss.spectral_sequence.local_chains_class  # noqa: F401
    import permaviss.spectral_sequence.spectral_sequence_class  # noqa: F401
    import permaviss.spectral_sequence.MV_spectral_seq  # noqa: F401
