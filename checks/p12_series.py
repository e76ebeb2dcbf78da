"""P12: the calibration series file evolves with the float and keeps operator choices."""
import itertools
import os

import numpy as np
from scipy.io import savemat

import pipe
import world as W
from engine import Result

PROP = "P12"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state exploration of histories of arriving profiles, profiles going bad, operator edits and updates of the series file, the real stage compared with a reference model after each update"
NOTE = "Breadth-first over all histories of a small alphabet up to the stated depth (states merged on source and file content); reference model written from the statement."
RULE = ("one case = an initial source and first event with all continuations; a transition is an event followed by an update of the series file by the real code; "
        "a state is (source, series file); non-trivial = distinct state")
ASSUMPTIONS = ["profiles are not removed from the source"]
BATCH = 1
NAN = np.nan
F = "3901234"
LIMITS = ("use_theta_lt", "use_theta_gt", "use_pres_lt", "use_pres_gt")


def setup(tier):
    pipe.shared_topo()


INITIAL = {"one": [(2, "g")], "plain": [(2, "g"), (4, "g"), (5, "g")], "bad first": [(2, "s"), (4, "g")], "all bad": [(2, "t"), (4, "p")], "reverse": [(5, "g"), (2, "g"), (4, "s")],
           "zero": [(0, "g"), (3, "g")], "long": [(k, "g") for k in (1, 2, 3, 10, 20)], "partly": [(2, "h"), (3, "g")],
           "many": [(2 * k, "s" if k % 41 == 3 else "g") for k in range(2, 133)], "hundreds": [(k + k // 90, "p" if k % 97 == 5 else "g") for k in range(2, 303)]}


def events():
    out = []
    for new in ([(1, "g")], [(3, "g")], [(6, "g")], [(7, "s")], [(6, "g"), (1, "g")], [(3, "t"), (6, "g")], [(8, "p"), (7, "g"), (1, "s")], [(6, "h")], [(9, "g"), (3, "g"), (8, "g")]):
        out.append(["add", new])
    for flags in ("1", "2", "12", "21", "011", "102", "0", "120"):
        out.append(["flags", flags])
    for k, how in ((0, "s"), (-1, "p"), (1, "t"), (0, "g"), (-1, "h")):
        out.append(["data", k, how])
    out += [["set", {"breaks": [[3.0]], "max_breaks": [[1]]}], ["set", {"breaks": [[3.0, NAN], [5.0, 6.0]], "max_breaks": [[1], [2]]}], ["set", {"max_breaks": [[-1]]}],
            ["set", {"use_percent_gt": [[0.25]]}], ["set", {"use_theta_lt": [[4.0]], "use_pres_gt": [[800.0]]}], ["set", {"use_theta_gt": [[1.5]], "use_pres_lt": [[1900.0]]}],
            ["set", {"use_theta_lt": [[4.0, 5.0]]}], ["set", {"use_pres_gt": [[700.0], [900.0]]}], ["set", {"use_theta_gt": [[1.0, 2.0, 3.0]], "use_pres_lt": [[1500.0, 1600.0]]}],
            ["set", {"use_theta_gt": [[0.0]]}], ["drop", "use_percent_gt"], ["delete"], ["nothing"], ["shuffle"]]
    return out


EVENTS = events()


def cases(tier):
    for start in ("many", "hundreds"):
        for i in range(len(EVENTS)):
            yield {"start": start, "first": i, "depth": 1}
            if EVENTS[i][0] == "flags" and len(EVENTS[i][1]) > 1:
                for j in range(0, 9):
                    yield {"start": start, "first": i, "second": j, "depth": 2}
    for start in INITIAL:
        for i in range(len(EVENTS)) if len(INITIAL[start]) < 9 else ():
            yield {"start": start, "first": i, "depth": 2 if tier == "quick" else 3}
    if tier == "quick":
        for start in ("plain", "bad first"):
            for i in range(len(EVENTS)):
                for j in range(0, len(EVENTS), 6):
                    yield {"start": start, "first": i, "second": j, "depth": 3}


def make(no, how):
    p = pipe.profile(no, levels=pipe.LEVELS[:3])
    p["temp"] = p["temp"].copy()
    if how == "s":
        p["sal"][:] = NAN
    elif how == "t":
        p["temp"][:] = NAN
    elif how == "p":
        p["pres"][:] = NAN
    elif how == "h":            # holes, but each quantity somewhere
        p["sal"][[0, 1]] = NAN
        p["temp"][[1, 2]] = NAN
        p["pres"][0] = NAN
    return p


class Model:
    """what the file must hold"""

    def __init__(self):
        self.flags = {}
        self.vars = {}

    def copy(self):
        m = Model()
        m.flags, m.vars = dict(self.flags), dict(self.vars)
        return m

    def update(self, source):
        """source: [(number, condition)]"""
        if not self.vars:
            self.vars = {"breaks": np.zeros((0, 0)), "max_breaks": np.array([[4.0]]), "use_percent_gt": np.array([[0.5]]), **{k: np.zeros((0, 0)) for k in LIMITS}}
            self.flags = {no: 1.0 for no, _ in source}
        known = dict(self.flags)
        for no, _ in source:
            if no not in known:
                used = [k for k in known if known[k] != 0]
                before = [k for k in used if k < no]
                self.flags[no] = known[max(before)] if before else known[min(used)] if used else 1.0
        for no, how in source:
            if how in ("s", "t", "p"):
                self.flags[no] = 0.0
        for k in LIMITS:
            if np.size(self.vars[k]) > 1:
                self.vars[k] = np.zeros((0, 0))
        self.vars.setdefault("use_percent_gt", np.array([[0.5]]))


def judge(m, model):
    no, fl = np.ravel(m["calib_profile_no"]), np.ravel(m["calseries"])
    if no.tolist() != sorted(model.flags):
        return "profiles %s instead of %s" % (no.tolist(), sorted(model.flags))
    if fl.tolist() != [model.flags[k] for k in sorted(model.flags)]:
        return "flags %s instead of %s" % (fl.tolist(), [model.flags[k] for k in sorted(model.flags)])
    for k, v in model.vars.items():
        if k not in m or not pipe.same_var(np.asarray(m[k]), v):
            if np.size(v) or np.size(m.get(k, [])):
                return "%s is %s instead of %s" % (k, np.asarray(m.get(k, "missing")).tolist(), np.asarray(v).tolist())
    return None


def run(case):
    res = Result()
    with pipe.world() as w:
        cfg = w.config()
        p = pipe.path(cfg, "series", F)

        def update(source, content, model, hist):
            w.add_float(F, [make(*x) for x in source])
            if os.path.exists(p):
                os.remove(p)
            if content is not None:
                savemat(p, content)
            pipe.do_series(cfg, F)
            m = pipe.read(p)
            model.update(source)
            res.count("transitions")
            res.count("evaluations")
            bad = judge(m, model)
            if bad:
                res.bad("source %s, after %s: %s" % (source, hist, bad))
                return None
            res.count("traces_validated_against_impl")
            return m

        def apply(ev, source, content, model):
            source, content, model = list(source), dict(content), model.copy()
            kind = ev[0]
            if kind == "add":
                have = {no for no, _ in source}
                source += [tuple(x) for x in ev[1] if x[0] not in have]
            elif kind == "data":
                k = ev[1] if ev[1] >= 0 or not source else len(source) + ev[1]
                if k < len(source):
                    source[k] = (source[k][0], ev[2])
            elif kind == "flags":
                fl = [float(ev[1][i % len(ev[1])]) for i in range(len(model.flags))]
                content["calseries"] = np.array([fl])
                model.flags = dict(zip(sorted(model.flags), fl))
            elif kind == "set":
                for k, v in ev[1].items():
                    content[k] = np.array(v, float)
                    model.vars[k] = np.array(v, float)
            elif kind == "drop":
                content.pop(ev[1], None)
                model.vars.pop(ev[1], None)
            elif kind == "delete":
                content, model = None, Model()
            elif kind == "shuffle":
                source = source[::-1]
            return source, content, model

        start = [tuple(x) for x in INITIAL[case["start"]]]
        model = Model()
        m = update(start, None, model, [])
        if m is None:
            return res
        seen = set()
        frontier = [(start, m, model, [])]
        for depth in range(case["depth"]):
            nxt = []
            for source, content, model, hist in frontier:
                evs = EVENTS
                if depth == 0:
                    evs = [EVENTS[case["first"]]]
                elif depth == 1 and "second" in case:
                    evs = [EVENTS[case["second"]]]
                for ev in evs:
                    s, c, mo = apply(ev, source, content, model)
                    h = hist + [ev]
                    m = update(s, c, mo, h)
                    if m is None:
                        return res
                    key = (tuple(s), pipe.state_of(m))
                    if key not in seen:
                        seen.add(key)
                        res.count("states")
                        res.nontrivial(key)
                        nxt.append((s, m, mo, h))
            frontier = nxt
    return res
