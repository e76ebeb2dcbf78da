"""P07: nothing special happens at the Greenwich or date line."""
import itertools
import os

import numpy as np

import pipe
import world as W
from engine import Result

PROP = "P07"
LEVEL = "exploration"
TECHNIQUE = "exhaustive exploration of all turns of a setting by multiples of ten degrees and of the notations of the longitudes, on the real mapping and calibration, compared with the setting not turned"
NOTE = "All 36 turns of every bounded setting (the topography repeats every ten degrees, so that turning it gives the same file); a relation between executions, no model needed."
RULE = ("one case = one setting (float and reference data around a box edge or inside a box, notation of the longitudes, configuration) with all its turns; an evaluation is a mapping and calibration of one turn; "
        "non-trivial = distinct (setting, turn)")
ASSUMPTIONS = ["float longitudes are written from 0 to 360", "casts do not lie exactly on a box edge"]
BATCH = 1
NAN = np.nan
F = "3901234"
CONFIGS = [{"MAP_USE_PV": 1, "MAP_P_EXCLUDE": 0}, {}, {"MAP_USE_PV": 1, "CONFIG_MAX_CASTS": 9, "MAPSCALE_PHI_LARGE": 0.4}]
WIDE = {"MAPSCALE_LONGITUDE_LARGE": 26, "MAPSCALE_LONGITUDE_SMALL": 12}
NOTATIONS = ("360", "180", "mixed")


def setup(tier):
    pipe.shared_topo("10")


def cases(tier):
    for off in (0.05, 4.9, 9.7, 359.2 % 10):
        for k in range(len(CONFIGS)):
            for lat in ((-20.3, 38.6) if tier == "quick" else (-20.3, 38.6, -61.0, 1.2)):
                yield {"offset": off, "cfg": k, "lat": lat, "notation": "360", "fit": k < 2, "turns": list(range(36))}
    for off in (0.05, 9.7):
        for n in NOTATIONS[1:]:
            for k in range(2):
                yield {"offset": off, "cfg": k, "lat": -20.3, "notation": n, "fit": k == 0, "turns": list(range(0, 36)) if tier == "thorough" else [0, 1, 2, 16, 17, 18, 19, 34, 35]}
    # reference data up to two boxes away, the float anywhere in its box
    for off in ((0.6, 3.1, 6.2, 8.8) if tier == "quick" else np.arange(0.2, 10, 0.8)):
        for side in (-1, 0, 1):
            yield {"offset": float(off), "cfg": 1, "lat": -20.3, "notation": "360", "fit": False, "wide": side,
                   "turns": list(range(36)) if tier == "thorough" else [0, 1, 2, 17, 18, 19, 33, 34, 35]}
    if tier == "thorough":
        for off in np.arange(0.35, 10, 1.2):
            yield {"offset": float(off), "cfg": 0, "lat": 22.0, "notation": "mixed", "fit": True, "turns": list(range(36))}


def outcome(case, turn, notation):
    """the setting turned by 10*turn degrees"""
    d = 10.0 * turn
    center = (case["lat"], case["offset"])
    casts = [pipe.hist_cast(i, center, spread=1.4) for i in range(16)]
    wide = case.get("wide")
    if wide is not None:                # one side only, or both
        for i, c in enumerate(casts):
            east = wide or (-1) ** i
            c["long"] += east * (2.5 + (3.7 * i) % 17)
    # the turn is applied to exactly the same numbers
    ref = {}
    for i, c in enumerate(casts):
        lon = (c["long"] + 720.0) % 360.0
        lon = (lon + d) % 360.0
        c["long"] = lon
        if notation == "180" or (notation == "mixed" and i % 3 != 1):
            c["long"] = lon - 360.0 if lon > 180 else lon
        ref.setdefault((pipe.KINDS[i % 3], W.box_number(c["lat"], lon)), []).append(c)
    # the casts come in the order of the boxes: the same order for every turn
    profs = []
    for k in range(6):
        p = pipe.profile(k, center, dsal=0.012 * k, step=0.3)
        p["long"] = (p["long"] + d) % 360.0
        profs.append(p)
    with pipe.world(ref, periodic=True) as w:
        cfg = w.config(**dict(CONFIGS[case["cfg"]], **(WIDE if wide is not None else {})))
        w.add_float(F, profs)
        pipe.do_map(cfg, F)
        m = pipe.mapped(cfg, F)
        c = None
        if case["fit"]:
            pipe.do_series(cfg, F)
            pipe.do_fit(cfg, F, seed=5)
            c = pipe.read(pipe.path(cfg, "cal", F))
    back = sorted(((a - d) % 360.0, b) for a, b, _ in pipe.places(m))
    return m, c, back


def same_places(a, b):
    if len(a) != len(b):
        return False
    return all(any(abs(x[1] - y[1]) < 1e-5 and min(abs(x[0] - y[0]), 360 - abs(x[0] - y[0])) < 1e-5 for y in b) for x in a)


def run(case):
    res = Result()
    m0, c0, back0 = outcome(case, 7, "360")
    nm = int(np.isfinite(m0["la_mapped_sal"]).sum())
    for turn in case["turns"]:
        m, c, back = outcome(case, turn, case["notation"])
        res.count("evaluations")
        bad = pipe.mapped_diff(m, m0, 1e-6)
        if not bad and not same_places(sorted(set(back)), sorted(set(back0))):
            bad = "reference positions differ"
        if not bad and c0 is not None:
            for k in c0:
                if not pipe.same_var(c[k], c0[k], 1e-6):
                    bad = "%s %s instead of %s" % (k, np.ravel(c[k])[:6], np.ravel(c0[k])[:6])
                    break
        if bad:
            res.bad("turned by %d degrees (notation %s): %s" % (10 * turn - 70, case["notation"], bad))
            return res
        res.nontrivial(case["offset"], case["cfg"], case["lat"], case["notation"], case.get("wide"), turn, nm)
    return res
