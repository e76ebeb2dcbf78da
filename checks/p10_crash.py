"""P10: interrupted saving leaves complete old or complete new results."""
import json
import os
import subprocess
import sys

import pipe
from engine import Result

PROP = "P10"
LEVEL = "fault_enumeration"
TECHNIQUE = "exhaustive crash-point enumeration on the real stages: a preloaded library kills, tears or fails each single file-system operation of the stage in turn, then the stage is repeated"
NOTE = ("Every operation that changes something below the data directory is a fault point, for each kind of fault; process kills, not power failures (the page cache survives). "
        "Operations are intercepted in the C library, so the check does not depend on how the files are written.")
RULE = ("one case = a stage (mapping, series, calibration) the first time or on existing results, with one kind of fault; an evaluation is one fault point: run with the fault, inspection, repeated run; "
        "non-trivial = distinct (stage, fault, point, outcome)")
ASSUMPTIONS = ["the operating system keeps what was written when a process is killed", "one fault per run, except that a full disk stays full"]
BATCH = 1
HERE = os.path.dirname(os.path.abspath(__file__))


def setup(tier):
    pipe.shared_topo()
    so = os.path.join(os.environ["OWC_SCRATCH"], "shim.so")
    subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-U_FILE_OFFSET_BITS", "-o", so, os.path.join(HERE, "..", "lib", "shim.c"), "-ldl"], check=True)


def cases(tier):
    for stage in ("map", "series", "fit"):
        for again in (0, 1):
            for mode in ("kill", "torn", "error", "errors", "full"):
                for n in ((3,) if tier == "quick" else (2, 3, 6)):
                    for new in ((1,) if tier == "quick" or not again else (0, 1)):
                        yield {"stage": stage, "again": again, "modes": [mode], "profiles": n, "new": new}


def run(case):
    res = Result()
    env = dict(os.environ, LD_PRELOAD=os.path.join(os.environ["OWC_SCRATCH"], "shim.so"))
    p = subprocess.run([sys.executable, os.path.join(HERE, "..", "lib", "crash_server.py"), json.dumps(case)], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=800)
    if p.returncode != 0 or not p.stdout.strip():
        res.bad("the situation could not be set up: %s" % p.stderr.decode()[-1500:])
        return res
    out = json.loads(p.stdout.decode().strip().splitlines()[-1])
    for t in out["problems"][:3]:
        res.bad(t)
    res.count("evaluations", out["points"])
    res.count("crash_points", out["points"])
    for s in out["sigs"]:
        res.nontrivial(*s)
    return res
