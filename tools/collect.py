"""Coverage-guided collection of point-cloud cases (development aid).

  collect.py OUT.json SECONDS SEED

Generated clouds are run through the pipeline; a case is kept when it reaches
a line of the spectral sequence code, or a feature of the result, for a class
of primes, that fewer than KEEP cheaper cases have reached."""
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pbt import env  # noqa: E402
env.load()
from pbt import core, engine, geom, pools, pipeline  # noqa: E402

KEEP = 3
out, seconds, seed = sys.argv[1], float(sys.argv[2]), int(sys.argv[3])
mon = sys.monitoring
mon.use_tool_id(1, "collect")
hits = set()
FILES = ("spectral_sequence_class.py", "MV_spectral_seq.py",
         "image_kernel.py", "module_persistence_homology.py",
         "local_chains_class.py", "gauss_mod_p.py")


def line(code, ln):
    f = os.path.basename(code.co_filename)
    if f in FILES:
        hits.add((f, ln))
    return mon.DISABLE


mon.register_callback(1, mon.events.LINE, line)
best = {}
rng = engine.generator(seed)
end = time.time() + seconds
n = 0
while time.time() < end:
    case = geom.cloud_case(engine.Choices(rng), 700)
    hits.clear()
    pools.reset()
    mon.restart_events()
    mon.set_events(1, mon.events.LINE)
    t = time.process_time()
    try:
        with core.sut("mv"):
            ss = pipeline.mv(case)
            f = geom.features(ss)
    finally:
        mon.set_events(1, 0)
    t = time.process_time() - t
    n += 1
    cls = "2" if case["p"] == 2 else "odd"
    keys = ["%s:%d:%s" % (a, b, cls) for a, b in hits] + [
        "%s:%s" % (x, case["p"]) for x in f] + [
        "%s:%s" % ("+".join(sorted(f)), cls)]
    for k in keys:
        L = best.setdefault(k, [])
        L.append((t, case))
        L.sort(key=lambda x: x[0])
        del L[KEEP:]
    if n % 500 == 0:
        print(n, len(best), flush=True)
        json.dump(best, open(out, "w"))
json.dump(best, open(out, "w"))
