"""Drives one property: corpus replay, generated search, shrinking, verdict."""
import collections
import importlib
import json
import multiprocessing
import os
import pickle
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

from . import core, engine, pools

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHARDS = 8


class Context:
    """Handed to a property's check; collects what the case exercised."""

    def __init__(self):
        self.labels = set()
        self.nontrivial = False

    def label(self, *names):
        self.labels.update(names)


def load_prop(pid):
    return importlib.import_module("pbt.props.%s" % pid.lower())


def run_case(prop, case):
    """Returns the Context; raises Violation, or anything else on a harness
    error."""
    pools.reset()
    ctx = Context()
    prop.check(case, ctx)
    return ctx


def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as f:
        data = json.load(f)
    return [e for e in data["findings"] if e["property"] == pid]


def corpus(pid):
    path = os.path.join(VERIF, "corpus", pid + ".json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)


def mix(seed, pid, shard):
    import hashlib
    h = hashlib.sha256(("%d|%s|%d" % (seed, pid, shard)).encode()).digest()
    return int.from_bytes(h[:8], "big")


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.skipped = 0
        self.hashes = set()
        self.labels = collections.Counter()
        self.samples = []
        self.invalid = 0

    def add(self, case, ctx):
        self.evaluations += 1
        for x in ctx.labels:
            self.labels[x] += 1
        if ctx.nontrivial:
            h = core.digest(case)
            if h not in self.hashes:
                self.hashes.add(h)
                if len(self.samples) < 2 or (
                        len(self.samples) < 4 and len(self.hashes) % 97 == 0):
                    self.samples.append(case)


def shrink_saved(prop, case, msg, tier):
    """Saved cases have no choice sequence to shrink: greedy search through
    the smaller cases that the property proposes."""
    smaller = getattr(prop, "smaller", None)
    end = time.time() + (30 if tier == "quick" else 120)
    again = smaller is not None
    while again and time.time() < end:
        again = False
        for c in smaller(case):
            if time.time() > end:
                break
            try:
                run_case(prop, c)
            except core.Violation as e:
                case, msg, again = c, str(e), True
                break
            except Exception:
                continue
    return case, msg


def shard_main(pid, tier, seed, shard, n, deadline, stop, out_path, upto=None,
               saved=()):
    """One process: its share of the saved cases, then n generated ones."""
    prop = load_prop(pid)
    stats = Stats()
    state = {"fail": None, "small": None, "err": None, "first": None}
    n_saved = 0

    def finish():
        with open(out_path, "wb") as f:
            pickle.dump(dict(state, stats=stats, n_saved=n_saved), f)

    for c in saved:
        try:
            ctx = run_case(prop, c)
        except core.Violation as e:
            stop.value = 1
            state["fail"] = shrink_saved(prop, c, str(e), tier)
            return finish()
        except Exception:
            state["err"] = traceback.format_exc() + json.dumps(c)
            return finish()
        n_saved += 1
        stats.add(c, ctx)

    rng = engine.generator(mix(seed, pid, shard))

    def make(prefix):
        src = engine.Choices(None, prefix)
        case = prop.generate(src, tier)
        return case, src.used

    def fails(case):
        try:
            run_case(prop, case)
        except core.Violation as e:
            return str(e)
        return None

    for i in range(n):
        if time.time() > deadline or stop.value or (
                upto is not None and i > upto):
            stats.skipped += n - i
            break
        try:
            src = engine.Choices(rng)
            case = prop.generate(src, tier)
            ctx = run_case(prop, case)
        except core.Violation as e:
            stop.value = 1
            state["first"] = i
            state["fail"] = (case, str(e))
            small, msg = engine.shrink(make, fails, src.used,
                                       40 if tier == "quick" else 180)
            if small is not None:
                state["small"] = (small, msg)
            break
        except Exception:
            state["err"] = traceback.format_exc()
            break
        stats.add(case, ctx)
    finish()


def replay_in_fresh_process(pid, path):
    """(violated?, message)"""
    r = subprocess.run(
        [sys.executable, os.path.join(VERIF, "check.py"), pid, "--replay",
         path, "--quiet"], cwd=VERIF, capture_output=True, text=True,
        timeout=600)
    if r.returncode == 1:
        return True, r.stdout.strip()
    if r.returncode == 0:
        return False, ""
    raise RuntimeError("replay failed: " + r.stderr[-2000:])


def replay(pid, path, quiet=False):
    with open(path) as f:
        data = json.load(f)
    prop = load_prop(pid)
    if "case" in data:
        try:
            run_case(prop, data["case"])
        except core.Violation as e:
            print("violated: %s" % e)
            return 1
        return 0
    # the failure needs the history of its shard: run it again
    h = data["history"]
    tmp = tempfile.mkdtemp(prefix="verif_pbt_")
    try:
        out = os.path.join(tmp, "out")
        stop = multiprocessing.get_context("fork").Value("i", 0, lock=False)
        saved = corpus(pid)
        shard_main(pid, h["tier"], h["seed"], h["shard"], h["n"],
                   time.time() + 10 ** 6, stop, out, h["upto"],
                   saved[h["shard"]::prop.BUDGET[h["tier"]].get(
                       "shards", SHARDS)])
        with open(out, "rb") as f:
            res = pickle.load(f)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if res["fail"] is not None:
        print("violated: %s" % res["fail"][1])
        return 1
    return 0


def write_replay(pid, data):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s.json" % pid)
    with open(path, "w") as f:
        json.dump(data, f, indent=1, sort_keys=True)
    return path


def run(pid, tier, seed):
    t0 = time.time()
    prop = load_prop(pid)
    findings = known_findings(pid)
    known_inputs = {core.digest(e["case"]): e for e in findings}
    total = Stats()
    violation = None          # (replay data, message)
    notes = []
    for e in findings:
        try:
            run_case(prop, e["case"])
        except core.Violation:
            print("KNOWN-FINDING: property=%s %s" % (pid, e["what"]))
        else:
            notes.append("listed finding no longer fails: " + e["what"])
    # saved cases (failures of the past, rare situations), then generated ones
    saved = [c for c in corpus(pid) if core.digest(c) not in known_inputs]
    n_saved = 0
    conf = prop.BUDGET[tier]
    n, wall = conf["examples"], conf["wall"]
    shards = conf.get("shards", SHARDS)
    errors = []
    fork = multiprocessing.get_context("fork")
    stop = fork.Value("i", 0, lock=False)
    tmp = tempfile.mkdtemp(prefix="verif_pbt_")
    try:
        procs = []
        per = max(1, n // shards)
        for k in range(shards):
            out = os.path.join(tmp, "out%d" % k)
            pr = fork.Process(target=shard_main, args=(
                pid, tier, seed, k, per, t0 + wall, stop, out, None,
                saved[k::shards]))
            pr.start()
            procs.append((pr, out))
        for k, (pr, out) in enumerate(procs):
            pr.join(max(1.0, t0 + wall + (240 if tier == "quick" else 900)
                        - time.time()))
            if pr.is_alive():
                pr.kill()
                pr.join()
                notes.append("shard %d did not finish in time" % k)
                continue
            if not os.path.exists(out):
                errors.append("shard %d died with exit code %s"
                              % (k, pr.exitcode))
                continue
            with open(out, "rb") as f:
                res = pickle.load(f)
            s = res["stats"]
            n_saved += res["n_saved"]
            total.evaluations += s.evaluations
            total.skipped += s.skipped
            total.hashes |= s.hashes
            total.labels.update(s.labels)
            if len(total.samples) < 4:
                total.samples += s.samples[:1]
            if res["err"]:
                errors.append(res["err"])
            if res["fail"] is None:
                continue
            case, msg = res["fail"]
            if core.digest(case) in known_inputs:
                continue
            cands = [{"property": pid, "case": c, "message": m}
                     for c, m in (res["small"], res["fail"]) if c is not None
                     ] if res["small"] else [
                {"property": pid, "case": case, "message": msg}]
            if res["first"] is not None:
                cands.append({"property": pid, "message": msg, "history": {
                    "tier": tier, "seed": seed, "shard": k, "n": per,
                    "upto": res["first"]}})
            if violation is not None and time.time() - t0 > wall + 60:
                continue
            for cand in cands:
                path = write_replay(pid, cand)
                bad, _ = replay_in_fresh_process(pid, path)
                if bad:
                    if violation is None or (
                            "case" in cand and len(json.dumps(cand)) <
                            len(json.dumps(violation[0]))):
                        violation = (cand, cand["message"])
                    break
            else:
                notes.append("a failure did not reproduce in a fresh "
                             "process: %s" % msg)
                if os.path.exists(path):
                    os.unlink(path)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if total.skipped:
        notes.append("wall-clock budget reached: %d of %d generated cases "
                     "were not evaluated" % (total.skipped, n))
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": total.evaluations,
            "distinct_nontrivial": len(total.hashes),
            "rule": prop.RULE,
            "samples": [shorten(c) for c in total.samples[:4]],
            "saved_cases_replayed": n_saved,
            "classes": dict(sorted(total.labels.items())),
        },
        "assumptions": list(getattr(prop, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": 0 if violation is None else 1,
        "notes": notes,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
        f.write("\n")
    for x in notes:
        print("note: " + x)
    if violation is not None:
        path = write_replay(pid, violation[0])
        print("violated: %s" % violation[1])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        print("harness error:\n" + errors[0], file=sys.stderr)
        return 2
    print("%s: %d cases (%d distinct non-trivial), %.1f s" % (
        pid, total.evaluations, len(total.hashes), time.time() - t0))
    return 0


def shorten(case, limit=6000):
    s = json.dumps(case)
    if len(s) <= limit:
        return case
    return {"truncated": s[:limit]}
