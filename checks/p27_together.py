"""P27: floats processed at the same time by several processes get the results of being processed alone."""
import json
import os
import subprocess
import sys

import pipe
from engine import Result

PROP = "P27"
LEVEL = "model_checking"
TECHNIQUE = "stateless model checking of the real stages: two processes run under a controlled scheduler that stops each before every operation on a result file and enumerates all interleavings up to a preemption bound"
NOTE = ("The scheduler sits in the C library (opening, looking at, writing, renaming, removing files below the data directory), so it does not depend on how the files are read and written. "
        "Two processes; between two such operations a process runs undisturbed.")
RULE = ("states are the distinct orders of operations so far, transitions the operations executed, traces the schedules, all executed on the real code; one case = a pair of stages on the same or on different floats, the first time or on existing results; an evaluation is one schedule: both processes to their ends, then all result files compared "
        "with those of the stages run alone; non-trivial = distinct (pair, order of operations)")
ASSUMPTIONS = ["processes interact through files below the data directory, the working directory and the directory for temporary files only", "two processes at a time"]
BATCH = 1
CASE_TIMEOUT = 2400
HERE = os.path.dirname(os.path.abspath(__file__))


def setup(tier):
    pipe.shared_topo()
    so = os.path.join(os.environ["OWC_SCRATCH"], "shim.so")
    subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-U_FILE_OFFSET_BITS", "-o", so, os.path.join(HERE, "..", "lib", "shim.c"), "-ldl"], check=True)


def cases(tier):
    bound = 2 if tier == "quick" else 3
    pairs = [(a, b) for a in ("map", "series", "fit") for b in ("map", "series", "fit")]
    for a, b in pairs:
        for same in (0, 1):
            if a > b or same and a != b and "map" not in (a, b):
                continue            # the calibration needs the series of the same float
            for again in (0, 1):
                for new in (0, 1):
                    if new and (not again or same and a != b):
                        continue
                    if same and a != b and not again:
                        continue    # a stage needs the results of the one before
                    yield {"todo": [[a, 0], [b, 0 if same else 1]], "again": again, "new": new, "bound": bound, "tier": tier}


def run(case):
    res = Result()
    env = dict(os.environ, LD_PRELOAD=os.path.join(os.environ["OWC_SCRATCH"], "shim.so"))
    p = subprocess.run([sys.executable, os.path.join(HERE, "..", "lib", "sched_server.py"), json.dumps(case)], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=235 if case.get("tier", "quick") == "quick" else 2300)
    if p.returncode != 0 or not p.stdout.strip():
        res.bad("the situation could not be set up: %s" % p.stderr.decode()[-1500:])
        return res
    out = json.loads(p.stdout.decode().strip().splitlines()[-1])
    for t in out["problems"][:3]:
        res.bad(t)
    res.count("evaluations", out["schedules"])
    res.count("situations_cut_short", 1 if out["left"] else 0)
    res.count("schedules", out["schedules"])
    res.count("states", out["states"])
    res.count("transitions", out["steps"])
    res.count("traces_validated_against_impl", out["schedules"])
    for s in out["sigs"]:
        res.nontrivial(json.dumps(case["todo"]), case["again"], s)
    return res
