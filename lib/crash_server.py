"""Runs one situation of P10 under the fault injector: every fault point of a stage, each in a forked process.

argv: JSON case; prints one JSON object."""
import ctypes
import io
import json
import os
import signal
import sys
import time
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("OWC_REPO", "/repo")
for p in (os.path.join(ROOT, "lib"), REPO):
    sys.path.insert(0, p)
import numpy as np  # noqa: E402

import pipe  # noqa: E402

F = "3901234"
MODES = {"kill": 0, "torn": 1, "error": 2, "errors": 3, "full": 4}


def stage(cfg, what):
    {"map": pipe.do_map, "series": pipe.do_series, "fit": pipe.do_fit}[what](cfg, F)


def profiles(n):
    return [pipe.profile(k + 1, dsal=0.01 * k) for k in range(n)]


def snapshot(root):
    out = {}
    for d in ("float_mapped", "float_calib"):
        for f in sorted(os.listdir(os.path.join(root, d))):
            with open(os.path.join(root, d, f), "rb") as h:
                out[d + "/" + f] = h.read()
    return out


def restore(root, snap):
    for d in ("float_mapped", "float_calib"):
        for f in os.listdir(os.path.join(root, d)):
            if d + "/" + f not in snap:
                os.remove(os.path.join(root, d, f))
    for f, data in snap.items():
        with open(os.path.join(root, f), "wb") as h:
            h.write(data)


def content(data):
    """canonical content of a .mat file given as bytes"""
    from scipy.io import loadmat
    return pipe.state_of({k: v for k, v in loadmat(io.BytesIO(data)).items() if not k.startswith("__")})


def child(root, cfg, what, n, mode, lib):
    """runs the stage in a forked process: ('ok'|'raised'|'killed', operations, trace)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.alarm(60)
            null = open(os.devnull, "w")
            sys.stdout = sys.stderr = null
            lib.shim_arm(root.encode(), n, mode)
            try:
                stage(cfg, what)
                end = b"ok"
            except BaseException:
                end = b"raised"
            c = lib.shim_disarm()
            os.write(w, end + b" %d " % c + lib.shim_trace())
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        if os.WTERMSIG(st) == signal.SIGALRM:
            return "hangs", 0, ""
        return "killed", 0, ""
    end, c, tr = (data.decode().split(" ", 2) + ["", "", ""])[:3]
    return end, int(c or 0), tr


def main():
    case = json.loads(sys.argv[1])
    lib = ctypes.CDLL(None)
    lib.shim_trace.restype = ctypes.c_char_p
    lib.shim_disarm.restype = ctypes.c_long
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    real = sys.stdout
    sys.stdout = io.StringIO()
    out = {"problems": [], "points": 0, "sigs": [], "ops": 0}
    import pyowc  # noqa: F401
    from pyowc import calibration, configuration  # noqa: F401
    stages = ["map", "series", "fit"]
    what = case["stage"]
    with pipe.world(pipe.reference(14)) as w:
        cfg = w.config()
        n = case["profiles"]
        if case["again"]:               # the stage has run before, on fewer profiles
            w.add_float(F, profiles(n - case["new"]))
            for s in stages[:stages.index(what) + 1]:
                stage(cfg, s)
        w.add_float(F, profiles(n))
        for s in stages[:stages.index(what)]:
            stage(cfg, s)
        before = snapshot(w.root)
        end, ops, tr = child(w.root, cfg, what, -1, 0, lib)
        after = snapshot(w.root)
        out["ops"], out["trace"] = ops, tr
        if end != "ok" or ops == 0:
            out["problems"].append("the undisturbed stage ended with %s after %d operations" % (end, ops))
        try:
            new = {f: content(d) for f, d in after.items()}
        except Exception as e:
            out["problems"].append("after the undisturbed stage: %s" % e)
            new = {}
        for mode in case["modes"]:
            for k in range(1, ops + 1):
                if out["problems"]:
                    break
                if mode == "torn" and tr[k - 1:k] != "w":
                    continue
                restore(w.root, before)
                end, _, _ = child(w.root, cfg, what, k, MODES[mode], lib)
                label = "%s at operation %d of %s (%s, %s)" % (mode, k, tr, what, "again" if case["again"] else "first time")
                now = snapshot(w.root)
                kinds = []
                for f in sorted(set(before) | set(new)):
                    if f in now and f in before and now[f] == before[f]:
                        kinds.append("old")
                        continue
                    if f not in now:
                        if f in before:
                            out["problems"].append("%s: %s is gone" % (label, f))
                        kinds.append("none")
                        continue
                    try:
                        c = content(now[f])
                    except Exception as e:
                        out["problems"].append("%s: %s cannot be read: %s" % (label, f, str(e)[:100]))
                        continue
                    if c != new.get(f):
                        out["problems"].append("%s: %s is neither as before nor complete and new" % (label, f))
                    kinds.append("new")
                if mode == "kill" and end != "killed" or end == "hangs":
                    out["problems"].append("%s: the run ended with %s" % (label, end))
                if end == "ok" and not out["problems"]:
                    if any(content(now[f]) != new[f] for f in new if f in now) or set(new) - set(now):
                        out["problems"].append("%s: the stage ends without error, but the results are not saved" % label)
                # the next run starts from what is there
                end2, _, _ = child(w.root, cfg, what, -1, 0, lib)
                again = snapshot(w.root)
                try:
                    if end2 != "ok" or any(f not in again or content(again[f]) != c for f, c in new.items()):
                        out["problems"].append("%s: repeating the stage %s" % (label, "ends with " + end2 if end2 != "ok" else "gives other results"))
                except Exception as e:
                    out["problems"].append("%s: after repeating the stage: %s" % (label, e))
                out["points"] += 1
                out["sigs"].append([what, case["again"], mode, k, end, kinds])
    sys.stdout = real
    print(json.dumps(out))


if __name__ == "__main__":
    main()
