"""P32: the hemispheres are treated alike, and so are all years."""
import os

import numpy as np
from scipy.io import savemat

import pipe
import world as W
from engine import Result

PROP = "P32"
LEVEL = "exploration"
TECHNIQUE = "exhaustive exploration of settings at all latitudes, run by the real mapping and calibration as they are, mirrored at the equator, and moved by whole years"
NOTE = "Complete within the stated bounds; a relation between executions, no model needed (the topography is mirrored too, so that the file is the same)."
RULE = ("one case = a latitude, a configuration and a spread of the casts, with its mirror image and all moves in time; an evaluation is a mapping and calibration; "
        "non-trivial = distinct (setting, mirrored, years)")
ASSUMPTIONS = ["the front criterion is off (it is about one side only, P23)", "no more casts than the maximum", "nothing exactly on the edge of a box"]
BATCH = 1
F = "3901234"
CONFIGS = [{}, {"MAP_USE_PV": 1, "MAP_P_EXCLUDE": 0}, {"MAP_USE_PV": 1, "MAPSCALE_PHI_LARGE": 0.4, "MAPSCALE_PHI_SMALL": 0.2, "MAPSCALE_AGE_LARGE": 4, "MAPSCALE_AGE_SMALL": 1}]
YEARS = (-40, -1, 1, 3, 20)
AGES = (-160, 310, -900)


def topo(row, col):
    """the same north and south"""
    lat = np.abs(90 - row / 12.0)
    lon = (col % 120) / 12.0
    return np.round(-3500 - 500 * np.sin(np.radians(36 * lon)) * np.cos(np.radians(5 * lat)) - 250 * np.cos(np.radians(72 * lon)) - 9 * lat)


def topo_file():
    return os.path.join(os.environ["OWC_SCRATCH"], "mirror.int")


def setup(tier):
    W.write_topo(topo_file(), topo)


def cases(tier):
    lats = (0.35, 4.7, 9.8, 20.3, 29.9, 45.2, 59.7, 71.1, 84.3) if tier == "quick" else [0.35 + 2.9 * k for k in range(30)]
    for lat in lats:
        for k in range(len(CONFIGS)):
            for spread in (0.7, 1.6):
                yield {"lat": float(lat), "cfg": k, "spread": spread, "years": list(YEARS + AGES) if tier == "thorough" else [YEARS[k], YEARS[k + 2], AGES[k]]}


def outcome(case, side, years):
    center = (case["lat"], 200.4)
    casts = [pipe.hist_cast(i, center, spread=case["spread"]) for i in range(15)]
    ref = {}
    for i, c in enumerate(casts):
        c["lat"] *= side
        c["date"] += years * 1e10
        ref.setdefault((pipe.KINDS[i % 3], W.box_number(c["lat"], c["long"])), []).append(c)
    profs = []
    for k in range(6):
        p = pipe.profile(k, center, dsal=0.012 * k, step=0.2)
        p["lat"] *= side
        p["date"] += years
        profs.append(p)
    with pipe.world(ref, topo=topo_file()) as w:
        cfg = w.config(**CONFIGS[case["cfg"]])
        w.add_float(F, profs)
        pipe.do_map(cfg, F)
        m = pipe.mapped(cfg, F)
        pipe.do_series(cfg, F)
        p = pipe.path(cfg, "series", F)
        s = pipe.read(p)
        s["max_breaks"] = np.array([[0]])
        savemat(p, s)
        pipe.do_fit(cfg, F, seed=5)
        c = pipe.read(pipe.path(cfg, "cal", F))
    return m, c, sorted((a, round(side * b, 6), n) for a, b, n in pipe.places(m))


def run(case):
    res = Result()
    m0, c0, places0 = outcome(case, 1, 0)
    n = int(np.isfinite(m0["la_mapped_sal"]).sum())
    for side, years in [(-1, 0)] + [(s, y) for y in case["years"] for s in (1, -1)]:
        m, c, places = outcome(case, side, years)
        res.count("evaluations")
        bad = pipe.mapped_diff(m, m0, 1e-7)
        if not bad and places != places0:
            bad = "reference positions differ: %s instead of %s" % (places[:3], places0[:3])
        if not bad:
            for k in c0:
                if not pipe.same_var(c[k], c0[k], 1e-6):
                    bad = "%s %s instead of %s" % (k, np.ravel(c[k])[:6], np.ravel(c0[k])[:6])
                    break
        if bad:
            res.bad("float at %g, configuration %d, casts within %g degrees, %smoved by %d years: %s" % (
                case["lat"], case["cfg"], case["spread"], "mirrored, " if side < 0 else "", years, bad))
            return res
        res.nontrivial(case["lat"], case["cfg"], case["spread"], side, years, n)
    return res
