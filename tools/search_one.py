"""search_one.py PID SECONDS: one process of the search, first failure only."""
import os
import random
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pbt import env  # noqa: E402
try:
    env.load()
except Exception as e:
    print("import: %r" % e)
    os._exit(1)
from pbt import core, engine, runner  # noqa: E402

pid, seconds = sys.argv[1], float(sys.argv[2])
prop = runner.load_prop(pid)
rng = engine.generator(int(os.environ.get("VERIF_SEED", "1")))
end = time.process_time() + seconds
n = 0
# saved cases and generated ones in turn
cases = list(runner.corpus(pid))
random.Random(0).shuffle(cases)
cases = iter(cases)
code = 0
try:
    while time.process_time() < end:
        case = next(cases, None) if n % 2 == 0 else None
        if case is None:
            case = prop.generate(engine.Choices(rng), "quick")
        n += 1
        runner.run_case(prop, case)
except core.Violation as e:
    print(n, str(e)[:250])
    code = 1
except Exception as e:
    import traceback
    traceback.print_exc()
    print(n, "harness: %r" % e)
    code = 2
sys.stdout.flush()
sys.stderr.flush()
os._exit(code)
