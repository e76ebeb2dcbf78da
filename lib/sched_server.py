"""Runs one situation of P27: two stages in two processes, every interleaving of their operations on result files up to a bound
on the number of preemptions.

argv: JSON case; prints one JSON object."""
import collections
import ctypes
import io
import json
import os
import select
import signal
import sys
import tempfile
import time
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("OWC_REPO", "/repo")
for p in (os.path.join(ROOT, "lib"), REPO):
    sys.path.insert(0, p)
import numpy as np  # noqa: E402

import pipe  # noqa: E402
from crash_server import restore, snapshot  # noqa: E402

FLOATS = ("3901234", "39012345")
BUDGET = {"quick": 150.0, "thorough": 1800.0}    # seconds for the schedules of one situation; what is left is counted
STALL = 10.0            # seconds without an operation: the process waits for the other one


def content(data):
    """canonical content of a .mat file given as bytes, without the position of the last profile of the run that wrote it"""
    from scipy.io import loadmat
    return pipe.state_of({k: v for k, v in loadmat(io.BytesIO(data)).items() if not k.startswith("__") and k != "profile_index"})


def stage(cfg, what, flt):
    {"map": pipe.do_map, "series": pipe.do_series, "fit": pipe.do_fit}[what](cfg, flt)


def profiles(flt, n):
    out = [pipe.profile(k + 1, dsal=0.01 * k + (0.03 if flt == FLOATS[1] else 0)) for k in range(n)]
    for p in out if flt == FLOATS[1] else ():
        p.update(lat=p["lat"] + 0.7, long=p["long"] + 0.4)
    return out


def files(root):
    return {os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs}


def restore_all(root, snap, known):
    for f in files(root) - known:
        os.remove(f)
    restore(root, snap)


class Actor:
    """a forked process that runs one stage and stops before each of its operations"""

    def __init__(self, lib, root, cfg, what, flt, others=()):
        ask_r, ask_w = os.pipe()
        ans_r, ans_w = os.pipe()
        end_r, end_w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                for o in others:
                    for fd in (o.ask, o.ans, o.end_fd):
                        os.close(fd)
                for fd in (ask_r, ans_w, end_r):
                    os.close(fd)
                signal.alarm(120)
                null = open(os.devnull, "w")
                sys.stdout = sys.stderr = null
                os.write(ask_w, b"^")
                os.read(ans_r, 1)
                lib.shim_sched(root.encode(), ask_w, ans_r)
                try:
                    stage(cfg, what, flt)
                    end = "ok"
                except BaseException as e:
                    end = "raised %s: %s" % (type(e).__name__, str(e)[:200])
                lib.shim_disarm()
                os.write(end_w, end.encode())
            finally:
                os._exit(0)
        for fd in (ask_w, ans_r, end_w):
            os.close(fd)
        self.ask, self.ans, self.end_fd = ask_r, ans_w, end_r
        self.end = None
        self.pending = None

    def wait(self, timeout):
        """until the process stands before an operation or has ended; False: neither"""
        if self.pending or self.end is not None:
            return True
        if not select.select([self.ask], [], [], timeout)[0]:
            return False
        b = os.read(self.ask, 1)
        if b:
            self.pending = b.decode()
            return True
        self.end = os.read(self.end_fd, 4096).decode() or "died"
        os.waitpid(self.pid, 0)
        for fd in (self.ask, self.ans, self.end_fd):
            os.close(fd)
        return True

    def go(self):
        op, self.pending = self.pending, None
        os.write(self.ans, b".")
        return op

    def stop(self):
        if self.end is None:
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)
            for fd in (self.ask, self.ans, self.end_fd):
                os.close(fd)
            self.end = "stopped"


def run(lib, root, cfg, todo, choices):
    """one schedule: (ends, trace, decisions); beyond the given choices, the running process goes on.
    a decision is (chosen, could have been the other, a switch costs a preemption)"""
    actors = []
    for what, flt in todo:
        actors.append(Actor(lib, root, cfg, what, flt, actors))
    trace, decisions, cur = "", [], 0
    blocked = [False] * len(actors)
    try:
        for a in actors:
            if not a.wait(30):
                return ["does not start"] * len(actors), trace, decisions
        while True:
            live = [i for i, a in enumerate(actors) if a.end is None and a.pending]
            if not live:
                if all(a.end is not None for a in actors):
                    break
                if not any(a.wait(STALL) for a in actors if a.end is None):
                    return ["deadlock"] * len(actors), trace, decisions
                continue
            at = len(decisions)
            default = cur if cur in live else live[0]
            pick = choices[at] if at < len(choices) and choices[at] in live else default
            decisions.append((pick, live, cur in live))
            cur = pick
            trace += "%s%s" % ("ab"[cur], actors[cur].go())
            if not actors[cur].wait(0.5 if blocked[cur] else STALL):
                blocked[cur] = True
            if len(decisions) > 5000:
                return ["no end"] * len(actors), trace, decisions
        return [a.end for a in actors], trace, decisions
    finally:
        for a in actors:
            a.stop()


def main():
    case = json.loads(sys.argv[1])
    start = time.monotonic()
    lib = ctypes.CDLL(None)
    lib.shim_disarm.restype = ctypes.c_long
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    real = sys.stdout
    sys.stdout = io.StringIO()
    out = {"problems": [], "schedules": 0, "steps": 0, "states": 0, "sigs": [], "ops": [], "left": 0}
    import pyowc  # noqa: F401
    from pyowc import calibration, configuration  # noqa: F401
    order = ["map", "series", "fit"]
    with pipe.world(pipe.reference(14)) as w:
        cfg = w.config(MAP_USE_PV=1)
        os.environ["TMPDIR"] = os.path.join(w.root, "tmp_of_the_run")
        os.makedirs(os.environ["TMPDIR"])
        tempfile.tempdir = None
        os.chdir(os.environ["TMPDIR"])
        todo = [(what, FLOATS[i]) for what, i in case["todo"]]
        n = 2
        for flt in sorted({f for _, f in todo}):
            last = max(order.index(what) + (1 if case["again"] else 0) for what, f in todo if f == flt)
            # what the stages need has been there before; a stage that ran before did so without the newest profile
            grown = case["again"] and case["new"]
            w.add_float(flt, profiles(flt, n - 1 if grown else n))
            need = max(order.index(what) for what, f in todo if f == flt)
            for s in order[:last if grown else max(last, need)]:
                stage(cfg, s, flt)
            w.add_float(flt, profiles(flt, n))
            if grown:
                for s in order[:need]:
                    stage(cfg, s, flt)
        before = snapshot(w.root)
        others = files(w.root)
        alone = {}
        for k, t in enumerate(todo):
            restore_all(w.root, before, others)
            ends, _, dec = run(lib, w.root, cfg, [t], [])
            out["ops"].append(len(dec))
            if ends != ["ok"]:
                out["problems"].append("alone, %s of %s %s" % (t[0], t[1], ends[0]))
                break
            for f, d in snapshot(w.root).items():
                if before.get(f) != d:
                    alone[f] = content(d)
        else:
            expected = {f: content(d) for f, d in before.items()}
            expected.update(alone)
            queue = collections.deque([[]])          # fewest preemptions first
            while queue and not out["problems"]:
                if time.monotonic() - start > BUDGET[case.get("tier", "quick")]:
                    out["left"] = len(queue)
                    break
                prefix = queue.popleft()
                restore_all(w.root, before, others)
                ends, trace, dec = run(lib, w.root, cfg, todo, prefix)
                out["schedules"] += 1
                out["steps"] += len(dec)
                out["states"] += len(dec) - max(len(prefix) - 1, 0)      # the beginning has been visited before
                label = "%s || %s, %s" % (" of ".join(todo[0]), " of ".join(todo[1]), trace)
                for t, e in zip(todo, ends):
                    if e != "ok":
                        out["problems"].append("%s: %s of %s %s" % (label, t[0], t[1], e))
                now = snapshot(w.root)
                try:
                    for f, c in expected.items():
                        if f not in now:
                            out["problems"].append("%s: %s is missing" % (label, f))
                        elif content(now[f]) != c:
                            out["problems"].append("%s: %s is not what it is alone" % (label, f))
                except Exception as e:
                    out["problems"].append("%s: %s cannot be read: %s" % (label, f, str(e)[:100]))
                out["sigs"].append(trace)
                # all schedules that differ from this one in one more choice
                spent = 0
                for k, (pick, live, could) in enumerate(dec):
                    switch = k > 0 and could and pick != dec[k - 1][0]
                    if k >= len(prefix):
                        for o in live:
                            cost = 1 if k > 0 and could and o != dec[k - 1][0] else 0
                            if o != pick and spent + cost <= case["bound"]:
                                queue.append([d[0] for d in dec[:k]] + [o])
                    spent += switch
    sys.stdout = real
    print(json.dumps(out))


if __name__ == "__main__":
    main()
