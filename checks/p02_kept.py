"""P02: profiles already mapped keep their values and recorded settings for ever."""
import io
import itertools
import os

import numpy as np
from scipy.io import loadmat, savemat

import pipe
import world as W
from engine import Result

PROP = "P02"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state exploration of histories of changes (configuration, reference, source) and mapping runs on the real code"
NOTE = "All sequences of changes up to the stated length from a mapped float; the invariant is checked bit for bit after every run."
RULE = ("one case = a first change; its histories are all continuations up to the depth bound, each change followed by new profiles (or none) and a mapping run; "
        "a state is (mapped file, world); non-trivial = distinct (history, content)")
ASSUMPTIONS = ["the number of levels of the source file never gets smaller"]
BATCH = 1
NAN = np.nan
F = "3901234"


def setup(tier):
    pipe.shared_topo()

CFG = {"MAPSCALE_LONGITUDE_LARGE": 6.5, "MAPSCALE_LONGITUDE_SMALL": 3.1, "MAPSCALE_LATITUDE_LARGE": 3.3, "MAPSCALE_LATITUDE_SMALL": 1.7, "MAPSCALE_PHI_LARGE": 0.4,
       "MAPSCALE_PHI_SMALL": 0.05, "MAPSCALE_AGE_LARGE": 13, "MAPSCALE_AGE_SMALL": 6, "MAP_USE_PV": 1, "MAP_USE_SAF": 1, "MAP_P_DELTA": 130, "MAP_P_EXCLUDE": 270, "CONFIG_MAX_CASTS": 11}
CHANGES = ["nothing"] + sorted(CFG) + ["settings", "ref salinity", "ref file gone", "ref all gone", "ref bad", "src salinity", "src position", "src gone", "src levels", "src reversed",
                                        "src number", "src wild", "src nan", "old file"]
# "nothing" again at the end of a history is the plain second run


def cases(tier):
    for first in CHANGES:
        yield {"first": first, "depth": 2 if tier == "quick" else 3, "adds": [0, 1] if tier == "quick" else [0, 1, 2]}


class State:
    """what the next run sees"""

    def __init__(self):
        self.cfg = {}
        self.source = [pipe.profile(4), pipe.profile(6), pipe.profile(7)]
        self.source[1]["lat"] = NAN
        self.ref = pipe.reference(20)
        self.new = 0
        self.levels = len(pipe.LEVELS)
        self.content = None
        self.hist = []

    def copy(self):
        s = State()
        s.cfg = dict(self.cfg)
        s.source = [{k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in p.items()} for p in self.source]
        s.ref = {k: [dict(c) for c in v] for k, v in self.ref.items()}
        s.new, s.levels, s.content, s.hist = self.new, self.levels, self.content, list(self.hist)
        return s

    def change(self, what, add):
        self.hist.append((what, add))
        if what in CFG:
            self.cfg[what] = CFG[what] if what not in self.cfg else 0 if "USE" in what else 17 if "CASTS" in what else CFG[what] * 1.5
        elif what == "settings":
            self.cfg.update(CFG)
        elif what == "ref salinity":
            for casts in self.ref.values():
                for c in casts:
                    c["sal"] = c["sal"] + 0.3
        elif what == "ref file gone":
            self.ref.pop(sorted(self.ref)[0] if self.ref else None, None)
        elif what == "ref all gone":
            self.ref = {}
        elif what == "ref bad":
            for casts in self.ref.values():
                for c in casts:
                    c["sal"] = c["sal"] * NAN
        elif what == "src salinity":
            for p in self.source:
                p["sal"] = p["sal"] - 0.2
        elif what == "src position":
            for p in self.source[:2]:
                p["lat"], p["long"] = -21.1, 71.2
        elif what == "src gone":
            self.source = self.source[1:] or self.source
        elif what == "src levels":
            self.levels += 3
        elif what == "src reversed":
            self.source = self.source[::-1]
        elif what == "src wild":
            for p in self.source:
                p["sal"] = p["sal"] * 0 + 50.0
                p["ptmp"] = p["ptmp"] + 0.5
        elif what == "src nan":
            for p in self.source:
                p["sal"] = p["sal"] * NAN
                p["pres"] = p["pres"] * NAN
        elif what == "src number":          # a profile number in between appears
            if all(p["no"] != 5 for p in self.source):
                self.source.insert(0, pipe.profile(5))
        elif what == "old file":            # of a version without the front criterion
            m = loadmat(io.BytesIO(self.content))
            if not np.any(m.get("use_saf", 0) == 1):
                m = {k: v for k, v in m.items() if k[0] != "_" and k != "use_saf"}
                b = io.BytesIO()
                savemat(b, m)
                self.content = b.getvalue()
        for k in range(add):
            # one after, one before the mapped ones, some without position
            self.new += 1
            no = 8 + self.new if self.new % 2 else 4 - self.new
            p = pipe.profile(no)
            if self.new % 4 == 3:
                p["sal"][:] = NAN
            if self.new % 4 == 2:           # reference data around it, but no level that can be mapped
                p["sal"][p["pres"] >= 100] = NAN
            self.source.append(p)


def run(case):
    res = Result()
    out = None
    states = set()

    def execute(st):
        """the mapping run for the state; a new world each time, as reference files are memoised per path"""
        with pipe.world(st.ref) as w:
            cfg = w.config(**st.cfg)
            w.add_float(F, st.source, levels=st.levels)
            p = pipe.path(cfg, "map", F)
            if st.content is not None:
                with open(p, "wb") as f:
                    f.write(st.content)
            pipe.do_map(cfg, F)
            m = pipe.read(p)
            with open(p, "rb") as f:
                st.content = f.read()
        return m, cfg

    def step(st, before, what, add):
        st.change(what, add)
        m, cfg = execute(st)
        res.count("transitions")
        res.count("evaluations")
        res.count("traces_validated_against_impl")
        new = pipe.columns(m)
        for no, col in before.items():
            if no not in new:
                return "profile %s is gone" % no, None
            for q, v in col.items():
                u = np.asarray(new[no][q], float)
                v = np.asarray(v, float)
                if u.ndim:
                    if len(u) < len(v) or not np.isnan(u[len(v):]).all():
                        return "profile %s: %s now %s, was %s" % (no, q, u.tolist(), v.tolist()), None
                    u = u[:len(v)]
                if what == "old file" and q == "use_saf" and np.isnan(v) and u == 0:
                    continue        # such a file does not tell
                if not np.array_equal(u, v, equal_nan=True):
                    return "profile %s: %s now %s, was %s" % (no, q, u.tolist(), v.tolist()), None
        for no, col in new.items():
            if no in before:
                continue
            some = np.isfinite(np.asarray(col["la_mapsalerrors"], float)).any() or np.isfinite(np.asarray(col["la_signal_sal"], float)).any()
            for q, key in pipe.SETTINGS.items():
                want = float(cfg[key]) if some else NAN
                if not np.array_equal(np.float64(col[q]), np.float64(want), equal_nan=True):
                    return "profile %s %s recorded with %s %r instead of %r" % (no, "mapped" if some else "not mapped", q, col[q], want), None
        # nothing else lost: each place listed before is still listed
        key = (pipe.state_of(m), str(sorted(st.cfg.items())), st.new)
        if key not in states:
            states.add(key)
            res.count("states")
        res.nontrivial(key)
        return None, new

    def explore(st, before, places, depth):
        for what in ([case["first"]] if depth == case["depth"] else CHANGES):
            for add in case["adds"]:
                if depth < case["depth"] and add == 0 and case["depth"] == 3:
                    continue
                nxt = st.copy()
                text, cols = step(nxt, before, what, add)
                if text:
                    res.bad("after %s: %s" % (nxt.hist, text))
                    return
                if depth > 1:
                    explore(nxt, cols, None, depth - 1)
                if res.problems:
                    return

    st = State()
    m, cfg = execute(st)
    explore(st, pipe.columns(m), None, case["depth"])
    return res
