"""Bounded exhaustive exploration of the real code: case runner, verdicts, evidence, replay files.

A check module defines
    PROP, LEVEL, RULE, ASSUMPTIONS
    cases(tier)   -> iterable of JSON-able case descriptors: the complete bounded space, in a fixed order
    run(case)     -> Result (problems found while executing the real code on that case)
and optionally
    setup(tier)   -> called once in the parent before the workers are forked
    teardown()
"""
import argparse
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("OWC_REPO", "/repo")
EVIDENCE = os.environ.get("OWC_EVIDENCE", os.path.join(ROOT, "evidence"))
REPLAYS = os.environ.get("OWC_REPLAYS", os.path.join(ROOT, "replays"))
FINDINGS = os.path.join(ROOT, "KNOWN_FINDINGS.txt")

CASE_TIMEOUT = 240          # seconds without an answer from one case
MAX_VIOLATIONS = 5


class Result:
    """What one case showed."""

    def __init__(self):
        self.problems = []        # [(key, text)]
        self.signature = None     # hashable description of what the case exercised; None = trivial
        self.counts = {}          # summed over cases (states, transitions, ...)
        self.sigs = set()         # more signatures (one case may execute many evaluations)

    def bad(self, text, key=None):
        self.problems.append((key, text))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def nontrivial(self, *sig):
        self.sigs.add(hashlib.md5(repr(sig).encode()).hexdigest()[:12])


def case_key(case):
    return json.dumps(case, sort_keys=True, default=str)


def load_known(prop):
    out = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                key = line.split("key=", 1)[1].split(" | ", 1)
                out[key[0].strip()] = key[1].strip()
    return out


class CaseTimeout(BaseException):
    pass


def _alarm(*_):
    raise CaseTimeout()


_MODULE = None


def _quiet():
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")


def _execute(case):
    """Run one case in this process: (problems, counts, sigs)."""
    res = None
    out = sys.stdout
    sys.stdout = io.StringIO()
    try:
        signal.signal(signal.SIGALRM, _alarm)
        limit = getattr(_MODULE, "CASE_TIMEOUT", CASE_TIMEOUT)
        signal.alarm(limit)
        try:
            res = _MODULE.run(case)
        finally:
            signal.alarm(0)
    except CaseTimeout:
        res = Result()
        res.bad("no answer after %d s" % limit)
    except (MemoryError, KeyboardInterrupt):
        raise
    except OSError as e:
        if e.errno == 28:
            raise
        res = Result()
        res.bad("raised " + "".join(traceback.format_exception(e))[-1500:])
    except SystemExit as e:
        res = Result()
        res.bad("the code ended the process: %r" % (e,))
    except Exception as e:  # the code under test (or its results) made the case fail
        res = Result()
        res.bad("raised " + "".join(traceback.format_exception(e))[-1500:])
    finally:
        sys.stdout = out
    return res.problems, res.counts, res.sigs


def _work(batch):
    _quiet()
    return [(i, case) + _execute(case) for i, case in batch]


def ensure_repo():
    for p in (os.path.join(ROOT, "lib"), os.path.join(ROOT, "checks"), REPO):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    try:
        import pyowc
        from pyowc import calibration, configuration  # noqa: F401
    except Exception:
        return "".join(traceback.format_exc())
    if not os.path.abspath(pyowc.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise SystemExit("pyowc comes from %s, not from %s" % (pyowc.__file__, REPO))
    return None


def main():
    global _MODULE
    ap = argparse.ArgumentParser()
    ap.add_argument("module")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("OWC_JOBS", "0")) or min(8, os.cpu_count() or 1))
    ap.add_argument("--limit", type=int)
    args = ap.parse_args()
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    warnings.simplefilter("ignore")
    import world
    os.environ.setdefault("MPLBACKEND", "Agg")
    scratch = world.scratch("owcrun.")
    os.environ["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
    os.environ["OWC_SCRATCH"] = scratch
    world.SCRATCH_ROOT = scratch
    parent = os.getpid()
    try:
        broken = ensure_repo()
        mod = importlib.import_module(args.module)
        _MODULE = mod
        prop = mod.PROP
        if broken:
            return finish(mod, tier, t0, [(0, {"import": True}, None, "the package cannot be imported:\n" + broken)],
                          {}, set(), [], 0, False)
        if hasattr(mod, "setup"):
            mod.setup(tier)
        if args.replay:
            case = json.load(open(args.replay))["case"]
            _quiet()
            problems, _, _ = _execute(case)
            for _, text in problems:
                print(text)
            print("REPLAY property=%s %s" % (prop, "violated" if problems else "held"))
            return 1 if problems else 0
        return explore(mod, tier, t0, args)
    finally:
        if os.getpid() == parent:
            world.shutil.rmtree(scratch, ignore_errors=True)


def explore(mod, tier, t0, args):
    violations, counts, sigs, samples = [], {}, set(), []
    evaluations = 0
    exhausted = True
    known = load_known(mod.PROP)
    suppressed = {}
    cases = list(mod.cases(tier))
    if args.limit:
        cases = cases[:args.limit]
        exhausted = False
    size = max(1, min(getattr(mod, "BATCH", 64), (len(cases) + args.jobs * 4 - 1) // (args.jobs * 4)))
    batches = [list(enumerate(cases[i:i + size], i)) for i in range(0, len(cases), size)]
    jobs = 1 if len(batches) == 1 else args.jobs
    ctx = mp.get_context("fork")
    pool = ctx.Pool(jobs) if jobs > 1 else None
    it = pool.imap_unordered(_work, batches) if pool else map(_work, batches)
    try:
        while True:
            try:
                batch = it.next(CASE_TIMEOUT * 2) if pool else next(it)
            except StopIteration:
                break
            except mp.TimeoutError:
                violations.append((len(cases), {"stuck": True}, None, "a worker gave no answer"))
                break
            for i, case, problems, c, s in batch:
                evaluations += c.pop("evaluations", 1)
                for k, v in c.items():
                    if k.startswith("max_"):
                        counts[k] = max(counts.get(k, 0), v)
                    else:
                        counts[k] = counts.get(k, 0) + v
                sigs |= s
                if len(samples) < 3 and s:
                    samples.append(case)
                for key, text in problems:
                    key = key or case_key(case)
                    if key in known:
                        suppressed[key] = known[key]
                    else:
                        violations.append((i, case, key, text))
            if len({v[0] for v in violations}) >= MAX_VIOLATIONS:
                exhausted = False
                break
    finally:
        if pool:
            pool.terminate()
            pool.join()
        if hasattr(mod, "teardown"):
            mod.teardown()
    for key in sorted(suppressed):
        print("KNOWN-FINDING: property=%s %s" % (mod.PROP, suppressed[key]))
    return finish(mod, tier, t0, violations, counts, sigs, samples, evaluations, exhausted)


def finish(mod, tier, t0, violations, counts, sigs, samples, evaluations, exhausted):
    prop = mod.PROP
    os.makedirs(EVIDENCE, exist_ok=True)
    violations.sort(key=lambda v: v[0])
    cov = {"evaluations": evaluations, "distinct_nontrivial": len(sigs), "rule": mod.RULE,
           "samples": samples, "exhaustive": bool(exhausted and not violations and not counts.get("situations_cut_short"))}
    cov.update(counts)
    if mod.LEVEL == "model_checking":
        for k in ("states", "transitions", "traces_validated_against_impl"):
            cov.setdefault(k, 0)
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": mod.LEVEL,
          "coverage": cov, "wall_s": round(time.time() - t0, 2), "violations": len(violations),
          "assumptions": list(getattr(mod, "ASSUMPTIONS", []))}
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    print("%s %s: %d evaluations, %d distinct non-trivial, %s, %.1f s" % (
        prop, tier, evaluations, len(sigs), ", ".join("%s=%s" % kv for kv in sorted(counts.items())) or "-",
        time.time() - t0))
    if not violations:
        if not evaluations or not sigs:
            print("nothing was explored")
            return 3
        return 0
    os.makedirs(REPLAYS, exist_ok=True)
    i, case, key, text = violations[0]
    path = os.path.join(REPLAYS, "%s-%s.json" % (prop, hashlib.md5(case_key(case).encode()).hexdigest()[:10]))
    with open(path, "w") as f:
        json.dump({"property": prop, "module": mod.__name__, "case": case, "problems": [v[3] for v in violations if v[0] == i],
                   "replay": "bash run.sh %s --replay %s" % (prop, path)}, f, indent=1, default=str)
    for v in violations[:MAX_VIOLATIONS]:
        print("  case %s\n    %s" % (case_key(v[1])[:400], v[3].strip().replace("\n", "\n    ")))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


if __name__ == "__main__":
    sys.modules["engine"] = sys.modules["__main__"]
    sys.path.insert(0, os.path.join(ROOT, "lib"))
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
