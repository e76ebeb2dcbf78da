"""P31: a stage that fails or is interrupted leaves all results as they were, and can be repeated."""
import os
import shutil
import sys

import numpy as np
from scipy.io import savemat

import pipe
import world as W
from engine import Result

PROP = "P31"
LEVEL = "fault_enumeration"
TECHNIQUE = "enumeration of all damaged inputs, all failing opens and all places of interruption of every stage, each run for real, then repeated undisturbed in the same process"
NOTE = ("Complete within the stated bounds. Reference files are left out of the damage (a damaged one counts as a box without data, P08), not of the interruptions. "
        "Interruptions inside compiled code happen where it returns.")
RULE = ("one case = a stage, what is there before, and a kind of fault with all its inputs, opens or places; an evaluation is one disturbed run and its repetition; "
        "non-trivial = distinct (stage, before, fault, outcome)")
ASSUMPTIONS = ["one fault per run", "the process is not killed (P10)", "an input without a variable that has a documented default counts as intact"]
BATCH = 1
F = "3901234"
STAGES = ("map", "series", "fit")
BEFORE = ("nothing", "some", "all")
DAMAGE = ("missing", "empty", "text", "cut1", "cut2", "cut3", "cut4", "folder", "zeros", "variable")
INPUTS = {"map": ("source", "boxes", "topography", "saf", "map"), "series": ("source", "series"), "fit": ("source", "map", "series", "topography")}
PARTS = 8
SETTINGS = {"front": {"MAP_USE_SAF": 1, "MAP_P_DELTA": 3000}, "vorticity": {"MAP_USE_PV": 1}}


def setup(tier):
    pipe.shared_topo()


def cases(tier):
    for stage in STAGES:
        for before in BEFORE:
            for i in INPUTS[stage]:
                for how in DAMAGE:
                    yield {"kind": "inputs", "stage": stage, "before": before, "input": i, "how": how, "setting": "front"}
                    if tier == "thorough" or i == "topography":
                        yield {"kind": "inputs", "stage": stage, "before": before, "input": i, "how": how, "setting": "vorticity"}
            for setting in SETTINGS:
                yield {"kind": "opens", "stage": stage, "before": before, "setting": setting}
            for part in range(PARTS):
                for setting in SETTINGS if tier == "thorough" else ("front",):
                    yield {"kind": "interrupt", "stage": stage, "before": before, "part": part, "often": 8 if tier == "thorough" else 1, "setting": setting}


def location(cfg, i):
    return {"boxes": os.path.join(cfg["CONFIG_DIRECTORY"], cfg["CONFIG_WMO_BOXES"]), "saf": os.path.join(cfg["CONFIG_DIRECTORY"], cfg["CONFIG_SAF"]),
            "topography": os.path.join(cfg["CONFIG_DIRECTORY"], "tbase.int")}.get(i) or pipe.path(cfg, i, F)


HERE = (-44.7, 70.4)


def prepare(case, w):
    """the world in which the stage is to run"""
    cfg = w.config(**SETTINGS[case["setting"]])
    profs = [pipe.profile(k, HERE) for k in (1, 2, 3)]
    if case["setting"] == "front":
        for p in profs:
            water(p, 1, p["no"])
            p["temp"] = p["ptmp"] + 1e-4 * p["pres"]
    order = STAGES[:STAGES.index(case["stage"])]
    done = {"nothing": 0, "some": 2, "all": 3}[case["before"]]
    if done:
        w.add_float(F, profs[:done], levels=8)
        for s in STAGES[:STAGES.index(case["stage"]) + 1]:
            stage(s, cfg)
            if s == "series":
                adjust(cfg)
    w.add_float(F, profs, levels=8)
    for s in order:
        stage(s, cfg)
        if s == "series":
            adjust(cfg)
    return cfg


def adjust(cfg):
    """choices of the operator"""
    p = pipe.path(cfg, "series", F)
    s = pipe.read(p)
    s["max_breaks"] = np.array([[-1]])
    s["calseries"] = np.where(s["calib_profile_no"] == 2, 3.0, 1.0)
    savemat(p, s)


def stage(s, cfg):
    {"map": pipe.do_map, "series": pipe.do_series, "fit": pipe.do_fit}[s](cfg, F)


RESULTS = {"map": "map", "series": "series", "fit": "cal"}


def content(case, cfg):
    p = pipe.path(cfg, RESULTS[case["stage"]], F)
    m = pipe.read(p) if os.path.isfile(p) else {}
    m.pop("profile_index", None)
    return m


def same_content(a, b):
    if set(a) != set(b):
        return "variables %s instead of %s" % (sorted(a), sorted(b))
    for k in a:
        if not pipe.same_var(a[k], b[k], 1e-9):
            return "%s %s instead of %s" % (k, np.ravel(a[k])[:6], np.ravel(b[k])[:6])
    return None


def water(c, side, i):
    """north of the front (1) or between (0)"""
    d, a = (2.6, 8.5) if side == 1 else (2.0, 3.2)
    c["ptmp"] = d + a * np.exp(-np.asarray(c["pres"]) / 700.0) + pipe.wobble(i, 0.05)
    c["sal"] = 34.0 + 0.1 * c["ptmp"] + 0.1 * side + pipe.wobble(2 * i, 0.03)


def reference(case):
    if case["setting"] != "front":
        return pipe.reference(9, HERE, spread=1.1)
    ref = {}
    for i in range(11):
        c = pipe.hist_cast(i, HERE, spread=1.1)
        water(c, 0 if i % 4 == 1 else 1, i)
        ref.setdefault((pipe.KINDS[i % 3], W.box_number(c["lat"], c["long"])), []).append(c)
    return ref


def damage(p, how, k=0):
    """damages a file; False if that is not possible"""
    old = open(p, "rb").read() if os.path.isfile(p) else None
    if old is None:
        return False
    if how == "variable":
        d = pipe.read(p)
        names = [n for n in sorted(d) if n not in ("use_percent_gt", "use_saf")]
        if k >= len(names):
            return False
        del d[names[k]]
        savemat(p, d)
        return True
    os.remove(p)
    if how == "empty":
        open(p, "wb").close()
    if how == "text":
        with open(p, "w") as f:
            f.write("not found\n" * 40)
    if how.startswith("cut"):
        with open(p, "wb") as f:
            f.write(old[:max(1, len(old) * int(how[3:]) // 5 + 3)])
    if how == "zeros":
        with open(p, "wb") as f:
            f.write(bytes(len(old) if len(old) < 1e6 else 1000))
    if how == "folder":
        os.makedirs(p)
    return True


def files(w):
    out = pipe.tree(w.root, skip=("constants/tbase",))
    for d, dirs, _ in os.walk(w.root):
        for x in dirs:
            out[os.path.relpath(os.path.join(d, x), w.root) + "/"] = ""
    return out


def describe(e):
    return "no error" if e is None else "%s (%s)" % (type(e).__name__, str(e)[:60])


def run(case):
    res = Result()
    with pipe.world(reference(case)) as w:
        cfg = prepare(case, w)
        stage(case["stage"], cfg)
        want = content(case, cfg)
    globals()["kind_" + case["kind"]](case, want, res)
    return res


def kind_inputs(case, want, res):
    for k in range(40 if case["how"] == "variable" else 1):
        if case["input"] == "topography" and case["how"] == "variable":
            return
        with pipe.world(reference(case)) as w:
            cfg = prepare(case, w)
            W.clear_caches()
            p = location(cfg, case["input"])
            if not os.path.isfile(p):
                return
            safe = w.root + ".safe"
            link = os.readlink(p) if os.path.islink(p) else None
            if link is None:
                shutil.copy2(p, safe)
            if link is not None and case["how"] in ("cut1", "cut2", "cut3", "cut4", "zeros"):
                os.remove(p)        # never write through the link
                with open(p, "wb") as f:
                    n = os.path.getsize(link)
                    f.write(open(link, "rb").read()[:n * int(case["how"][3:]) // 5 + 1] if case["how"] != "zeros" else b"\0" * 1001)
                hurt = True
            else:
                hurt = damage(p, case["how"], k)
            if not hurt:
                if os.path.exists(safe):
                    os.remove(safe)
                return
            # the mapped file is also a result: begin anew if it is not there
            if case["input"] in ("map", "series") and RESULTS[case["stage"]] == case["input"] and case["how"] == "missing":
                if os.path.exists(safe):
                    os.remove(safe)
                return

            def undo(error):
                def back():
                    if os.path.isdir(p) and not os.path.islink(p):
                        os.rmdir(p)
                    elif os.path.lexists(p):
                        os.remove(p)
                    if link is not None:
                        os.symlink(link, p)
                    else:
                        shutil.copy2(safe, p)
                return back
            what = "%s (%s) with %s, %s %s%s" % (case["stage"], case["setting"], case["before"], case["input"], case["how"], " %d" % k if case["how"] == "variable" else "")
            bad = attempt(case, w, cfg, want, undo, what, res)
            if os.path.exists(safe):
                os.remove(safe)
        if bad:
            res.bad(bad)
            return


def attempt(case, w, cfg, want, undo, what, res):
    before = files(w)
    own = content(case, cfg) if case["how"] == "variable" and case["input"] == RESULTS[case["stage"]] else None
    error = None
    try:
        stage(case["stage"], cfg)
    except Exception as e:
        error = e
    res.count("evaluations")
    after = files(w)
    changed = sorted(n for n in set(before) | set(after) if before.get(n) != after.get(n))
    result = os.path.relpath(pipe.path(cfg, RESULTS[case["stage"]], F), w.root)
    if error is not None and changed or [n for n in changed if n != result]:
        return "%s: %s, files changed: %s" % (what, describe(error), changed[:4])
    if error is None:
        bad = same_content(content(case, cfg), want)
        if bad and own is not None and same_content(content(case, cfg), own) is None:
            bad = None          # nothing to do, and what is there is kept
        if bad:
            return "%s: finished as if the input were intact, but %s" % (what, bad)
    else:
        undo(error)()
        stage(case["stage"], cfg)
        bad = same_content(content(case, cfg), want)
        if bad:
            return "%s: %s; repeated with the input restored: %s" % (what, describe(error), bad)
    res.nontrivial(what, type(error).__name__)
    return None


STATE = {"root": None, "count": 0, "at": -1, "error": None}


def hook(event, args):
    if event == "open" and STATE["root"] and isinstance(args[0], (str, bytes)) and os.fsdecode(args[0]).startswith(STATE["root"]) and "/climatology/" not in os.fsdecode(args[0]):
        STATE["count"] += 1
        if STATE["count"] == STATE["at"]:
            raise OSError(5, "Input/output error", args[0])


HOOKED = []


def kind_opens(case, want, res):
    if not HOOKED:
        sys.addaudithook(hook)
        HOOKED.append(1)
    at = 1
    while True:
        with pipe.world(reference(case)) as w:
            cfg = prepare(case, w)
            W.clear_caches()
            before = files(w)
            STATE.update(root=w.root, count=0, at=at)
            error = None
            try:
                stage(case["stage"], cfg)
            except Exception as e:
                error = e
            n = STATE["count"]
            STATE["root"] = None
            if n < at:
                break
            res.count("evaluations")
            what = "%s (%s) with %s, open %d fails" % (case["stage"], case["setting"], case["before"], at)
            after = files(w)
            changed = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
            result = os.path.relpath(pipe.path(cfg, RESULTS[case["stage"]], F), w.root)
            bad = None
            if error is not None and changed or [k for k in changed if k != result]:
                bad = "%s, files changed: %s" % (describe(error), changed[:4])
            elif error is None:
                bad = same_content(content(case, cfg), want)
            else:
                stage(case["stage"], cfg)
                bad = same_content(content(case, cfg), want)
                bad = bad and "repeated: " + bad
            if bad:
                res.bad("%s: %s" % (what, bad))
                return
            res.nontrivial(what, type(error).__name__)
        at += 1


class Interruption:
    """raises KeyboardInterrupt at one place; counts the places"""

    def __init__(self, target=None):
        self.target, self.seen, self.fired, self.order = target, {}, False, []

    def __call__(self, frame, event, arg):
        if event not in ("call", "c_call", "c_return", "return"):
            return
        name = frame.f_code.co_filename
        if event.endswith("return") and not name.endswith("utilities.py"):
            return
        if os.sep + "pyowc" + os.sep in name and not name.startswith("<"):
            place = (os.path.basename(name), frame.f_lineno, event)
        elif event == "call" and os.path.join("io", "matlab") in name:
            place = (os.path.basename(name), frame.f_code.co_name, event)
        else:
            return
        k = self.seen[place] = self.seen.get(place, 0) + 1
        if self.target == (place, k) and not self.fired:
            self.fired = True
            sys.setprofile(None)
            raise KeyboardInterrupt("at %s %d" % (place, k))


def kind_interrupt(case, want, res):
    with pipe.world(reference(case)) as w:
        cfg = prepare(case, w)
        W.clear_caches()
        probe = Interruption()
        sys.setprofile(probe)
        try:
            stage(case["stage"], cfg)
        finally:
            sys.setprofile(None)
    targets = []
    for place, n in sorted(probe.seen.items(), key=repr):
        times = {1, n} | {1 + n * k // case["often"] for k in range(1, case["often"])}
        targets += [(place, t) for t in sorted(times) if t <= n]
    targets = targets[case["part"]::PARTS]
    with pipe.world(reference(case)) as w:
        cfg = prepare(case, w)
        fresh = {q: open(pipe.path(cfg, q, F), "rb").read() for q in ("map", "series", "cal") if os.path.isfile(pipe.path(cfg, q, F))}
        for target in targets:
            for q in ("map", "series", "cal"):
                p = pipe.path(cfg, q, F)
                if q in fresh:
                    with open(p, "wb") as f:
                        f.write(fresh[q])
                elif os.path.exists(p):
                    os.remove(p)
            W.clear_caches()
            before = files(w)
            error = None
            it = Interruption(target)
            sys.setprofile(it)
            try:
                stage(case["stage"], cfg)
            except KeyboardInterrupt as e:
                error = e
            finally:
                sys.setprofile(None)
            if not it.fired:
                continue
            res.count("evaluations")
            what = "%s (%s) with %s, interrupted at %s, time %d" % (case["stage"], case["setting"], case["before"], target[0], target[1])
            after = files(w)
            changed = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
            result = os.path.relpath(pipe.path(cfg, RESULTS[case["stage"]], F), w.root)
            bad = None
            if [k for k in changed if k != result]:
                bad = "files changed: %s" % changed[:4]
            elif error is None or changed:
                bad = same_content(content(case, cfg), want)
                if bad:
                    bad = ("goes on as if nothing had happened: " if error is None else "results changed: ") + bad
            if not bad:
                stage(case["stage"], cfg)
                bad = same_content(content(case, cfg), want)
                bad = bad and "repeated: " + bad
            if bad:
                res.bad("%s: %s" % (what, bad))
                return
            res.nontrivial(case["stage"], case["before"], target)
