#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE]"""
import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"),
                    choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--quiet", action="store_true")
    a = ap.parse_args()
    sys.path.insert(0, HERE)
    from pbt import env
    env.load()
    from pbt import runner
    if a.replay:
        rc = runner.replay(a.property, a.replay)
        if rc == 1 and not a.quiet:
            print("VIOLATION property=%s replay=%s" % (a.property, a.replay))
        return rc
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return runner.run(a.property, a.tier, seed)


if __name__ == "__main__":
    from_env = {
        "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1",
        "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1",
        "MKL_NUM_THREADS": "1", "MPLBACKEND": "Agg"}
    if os.environ.get("VERIF_PBT_ENV") != "1":
        e = dict(os.environ, VERIF_PBT_ENV="1", **from_env)
        for k in ("PYTHONPATH", "PYTHONHOME", "PYTHONSTARTUP"):
            e.pop(k, None)
        os.execve(PY, [PY, "-s", os.path.abspath(__file__)] + sys.argv[1:], e)
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
