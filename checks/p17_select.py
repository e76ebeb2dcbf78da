"""P17: the casts selected for mapping are distinct, near, and the best correlated."""
import itertools
import math

import numpy as np

import oracle
from engine import Result
from util import subsets

PROP = "P17"
LEVEL = "exploration"
RULE = ("one case = one subset of a lattice of casts (positions around the ellipse, dates, depths) with one scale set; evaluations are selections with every maximum number of casts, "
        "with and without potential vorticity, under several states of the random generator; non-trivial = distinct (casts inside, maximum)")
BATCH = 1
ASSUMPTIONS = ["casts with equal correlation may be chosen in either order", "no cast exactly on the ellipse"]

EQUATOR = (0.7, 359.3, 2003.5, 3700.0)
C = (-32.3, 51.7, 2003.5, 3700.0)
# latitude, longitude, depth large scale distances in units of 3*scale
RADII = [0.05, 0.3, 0.52, 0.77, 0.93, 0.99, 1.01, 1.2]
YEARS = [1995.2, 2003.4, 2011.9, 1984.6, 2004.1]
DEPTHS = [3700.0, 3650.0, 3300.0, 4600.0, 1500.0]
SCALES = [dict(latl=4, lats=2, lonl=8, lons=4, phil=0.5, phis=0.1, agel=20, ages=10),
          dict(latl=1.3, lats=1.1, lonl=2.0, lons=0.3, phil=3.0, phis=2.0, agel=2.5, ages=7)]


def lattice(sc, C=C):
    out = []
    k = 0
    for r in RADII:
        for a in (0.3, 1.9, 3.6, 5.1):
            a += 0.37 * r
            out.append((C[0] + 3 * sc["latl"] * r * math.sin(a), C[1] + 3 * sc["lonl"] * r * math.cos(a),
                        YEARS[k % 5] + 0.013 * k, DEPTHS[(k // 2) % 5] + 3 * k))
            k += 1
    return out


def crowd(sc, n, C=C):
    """as many as there are in reality, evenly spread, two thirds inside"""
    out = []
    for k in range(n):
        r, a = 1.2 * math.sqrt((k + 0.5) / n), 2.39996 * k
        out.append((C[0] + 3 * sc["latl"] * r * math.sin(a), C[1] + 3 * sc["lonl"] * r * math.cos(a), 1975.0 + (k * 0.618034 % 1) * 45, 3700.0 + 900 * math.sin(1.7 * k)))
    return out


FILES = [(-20.3, 70.4), (33.1, 359.8), (-48.9, 180.2)]
SETTINGS = [dict(MAPSCALE_LATITUDE_LARGE=1.1, MAPSCALE_LATITUDE_SMALL=0.7, MAPSCALE_LONGITUDE_LARGE=1.4, MAPSCALE_LONGITUDE_SMALL=0.4, MAPSCALE_AGE_LARGE=9, MAPSCALE_AGE_SMALL=3,
                 MAPSCALE_PHI_LARGE=0.6, MAPSCALE_PHI_SMALL=0.05),
            dict(MAPSCALE_LATITUDE_LARGE=0.9, MAPSCALE_LATITUDE_SMALL=0.3, MAPSCALE_LONGITUDE_LARGE=0.8, MAPSCALE_LONGITUDE_SMALL=0.6, MAPSCALE_AGE_LARGE=5, MAPSCALE_AGE_SMALL=14,
                 MAPSCALE_PHI_LARGE=0.2, MAPSCALE_PHI_SMALL=0.4)]


def setup(tier):
    import pipe
    pipe.shared_topo()


def in_files(case, res):
    """a profile with more casts around than the maximum is mapped as if only those selected were there"""
    import os

    import model
    import pipe
    import world as W
    from pyowc.core.finders import find_besthist, find_25boxes
    from pyowc.data.fetchers import get_region_hist_locations
    c = FILES[case["file"]]
    conf = dict(SETTINGS[case["scale"]], MAP_USE_PV=case["pv"])
    casts = [pipe.hist_cast(i, c, 2.6) for i in range(48)]
    for x in casts:
        x["long"] %= 360.0
    model.cast_depths(casts)

    def mapping(chosen, mx, prof):
        ref = {}
        for i, x in enumerate(casts):
            if i in chosen:
                ref.setdefault((pipe.KINDS[i % 3], W.box_number(x["lat"], x["long"])), []).append(x)
        with pipe.world(ref) as w:
            cfg = w.config(CONFIG_MAX_CASTS=mx, **conf)
            w.add_float("3901234", [prof], levels=len(pipe.LEVELS))
            order = []
            if len(chosen) == len(casts):
                boxes = find_25boxes(prof["long"], prof["lat"], pipe.read(os.path.join(cfg["CONFIG_DIRECTORY"], cfg["CONFIG_WMO_BOXES"])))
                lat, lon, dates = get_region_hist_locations(boxes, "3901234", cfg)
                for la, lo in zip(lat, lon):
                    order.append(min(range(len(casts)), key=lambda i: abs(casts[i]["lat"] - la) + abs((casts[i]["long"] - lo + 180) % 360 - 180)))
                order = order, np.array(dates)
            pipe.do_map(cfg, "3901234")
            return pipe.mapped(cfg, "3901234"), order

    for k in range(3):
        prof = pipe.profile(k + 1, c)
        z = W.ocean_depth(prof["lat"], prof["long"])
        for mx in (6, 11, 20, 33):
            full, (order, dates) = mapping(range(len(casts)), mx, prof)
            lat = np.array([casts[i]["lat"] for i in order])
            lon = np.array([prof["long"] + (casts[i]["long"] - prof["long"] + 180) % 360 - 180 for i in order])
            depth = np.array([casts[i]["z"] for i in order])
            index = find_besthist(lat, lon, dates, depth, prof["lat"], prof["long"], prof["date"], z,
                                  *(conf["MAPSCALE_" + q] for q in ("LATITUDE_LARGE", "LATITUDE_SMALL", "LONGITUDE_LARGE", "LONGITUDE_SMALL", "PHI_LARGE", "PHI_SMALL", "AGE_LARGE", "AGE_SMALL")),
                                  case["pv"], mx)
            chosen = {order[int(i)] for i in np.ravel(index)}
            some, _ = mapping(chosen, 300, prof)
            res.count("evaluations")
            bad = pipe.mapped_diff(full, some, 1e-7)
            if bad:
                res.bad("%s, %s, at most %d casts: %s than with the %d selected ones alone" % (c, conf, mx, bad, len(chosen)))
                return
            res.nontrivial(case["file"], case["scale"], case["pv"], k, sorted(chosen), int(np.isfinite(full["la_mapped_sal"]).sum()))


def cases(tier):
    n = len(RADII) * 4
    for f in range(len(FILES)):
        for s in range(2):
            for pv in (0, 1):
                yield {"scale": s, "file": f, "pv": pv, "pts": []}
    for s in range(2):
        for many in (70, 301, 650, 1500, 5000):
            yield {"scale": s, "pts": [], "many": many}
        for many in (60, 301):
            yield {"scale": s, "pts": [], "many": many, "equator": 1}
        for step in (1, 2):
            yield {"scale": s, "pts": list(range(0, n, step)), "equator": 1}
    for s in range(2):
        yield {"scale": s, "pts": []}
        for step in range(1, 8):            # regular subsets of the whole lattice
            for off in range(step):
                yield {"scale": s, "pts": list(range(off, n, step))}
        for group in ((0, 5, 10, 15, 20, 25), (1, 4, 8, 13, 22, 31, 2), (3, 6, 7, 9, 11, 12)) + (((14, 16, 17, 18, 19, 21, 23, 24),) if tier == "thorough" else ()):
            for sub in subsets(len(group), 1):
                yield {"scale": s, "pts": [group[i] for i in sub]}
        if tier == "thorough":
            for sub in subsets(n, 1, 3):
                yield {"scale": s, "pts": list(sub)}


def ranks(values, chosen, pool):
    """are `chosen` among the smallest of pool (ties aside)"""
    if not chosen:
        return True
    rest = [i for i in pool if i not in chosen]
    if not rest:
        return True
    return max(values[i] for i in chosen) <= min(values[i] for i in rest) + 1e-9


def judge(sel, inside, large, small, mx):
    """is there a set R of at most a third of arbitrary casts such that the rest is best large, then best small?

    A: the chosen casts as good as all others at the large scales (the best of the rest must lie in it), B: the same at
    the small scales.  What is in neither must be in R; beside that R can take i casts of B from the head of A (so that
    the others move up), and j of those not in B from its tail."""
    third = math.ceil(mx / 3)
    sel = set(sel)
    rest = [i for i in inside if i not in sel]
    if not rest:
        return True
    a, b = min(large[i] for i in rest) + 1e-9, min(small[i] for i in rest) + 1e-9
    in_a = sorted((i for i in sel if large[i] <= a), key=lambda i: large[i])
    in_b = {i for i in sel if small[i] <= b}
    out = sum(1 for i in sel if large[i] > a and i not in in_b)
    b_only = sum(1 for i in in_b if large[i] > a)
    others = [k for k, i in enumerate(in_a) if i not in in_b]        # places of those only good at the large scales
    for r in range(out, min(third, len(sel)) + 1):
        nl = min(2 * third - r, mx - r)
        for j in range(0, min(r - out, len(others)) + 1):
            left = others[:len(others) - j]
            last = left[-1] if left else -1
            ahead = last + 1 - len(left)                    # casts of B before the last of them
            behind = len(in_a) - (last + 1) - j
            for i in range(0, min(r - out - j, ahead) + 1):
                more = r - out - j - i                      # taken from elsewhere: outside of A, then behind
                if more > b_only + behind:
                    continue
                size = len(in_a) - j - i - max(0, more - b_only)
                if size >= nl and last + 1 - i <= nl:
                    return True
    return False


def run(case):
    from pyowc.core.finders import find_besthist
    res = Result()
    if "file" in case:
        in_files(case, res)
        return res
    sc = SCALES[case["scale"]]
    C = EQUATOR if "equator" in case else globals()["C"]
    pts = [lattice(sc, C)[i] for i in case["pts"]] if "many" not in case else crowd(sc, case["many"], C)
    n = len(pts)
    lat, lon, year, z = (np.array([p[k] for p in pts], float) for k in range(4))
    for pv in (0, 1):
        cfg = {"MAPSCALE_LONGITUDE_LARGE": sc["lonl"], "MAPSCALE_LATITUDE_LARGE": sc["latl"], "MAPSCALE_PHI_LARGE": sc["phil"], "MAP_USE_PV": pv}
        inside = [i for i in range(n) if oracle.in_ellipse(lat[i], lon[i], z[i], C, cfg)]
        large = {i: oracle.correlation(lat[i], lon[i], year[i], z[i], C, sc["latl"], sc["lonl"], sc["agel"], sc["phil"], pv) for i in inside}
        small = {i: oracle.correlation(lat[i], lon[i], year[i], z[i], C, sc["lats"], sc["lons"], sc["ages"], sc["phis"], pv) for i in inside}
        if n == 0:
            continue
        for mx in sorted(set(range(1, len(inside) + 2)) | {300}) if "many" not in case else (1, 2, 7, 60, 100, 101, 299, 300, len(inside) - 1, len(inside), len(inside) + 1):
            picks = []
            for state in (0, 12345):
                np.random.seed(state)
                np.random.rand(state % 7)
                a = [v.copy() for v in (lat, lon, year, z)]
                got = find_besthist(a[0], a[1], a[2], a[3], C[0], C[1], C[2], C[3], sc["latl"], sc["lats"], sc["lonl"], sc["lons"],
                                    sc["phil"], sc["phis"], sc["agel"], sc["ages"], pv, mx)
                picks.append([int(v) for v in np.asarray(got).ravel()])
                if any(not np.array_equal(x, y) for x, y in zip(a, (lat, lon, year, z))):
                    res.bad("the inputs were changed")
            res.count("evaluations", 2)
            tag = "%d casts, %d inside, max %d, pv %d" % (n, len(inside), mx, pv)
            sel = picks[0]
            if sorted(picks[0]) != sorted(picks[1]):
                res.bad("%s: the choice depends on the state of the random generator" % tag)
            elif len(set(sel)) != len(sel):
                res.bad("%s: casts chosen twice: %s" % (tag, sel))
            elif not set(sel) <= set(inside):
                res.bad("%s: casts outside the ellipse: %s" % (tag, sorted(set(sel) - set(inside))))
            elif len(inside) <= mx:
                if set(sel) != set(inside):
                    res.bad("%s: casts %s left out" % (tag, sorted(set(inside) - set(sel))))
            elif len(sel) != mx:
                res.bad("%s: %d casts chosen" % (tag, len(sel)))
            elif not judge(sel, inside, large, small, mx):
                res.bad("%s: %s are not the best correlated ones (large %s, small %s)" % (
                    tag, sorted(sel), sorted(inside, key=lambda i: large[i]), sorted(inside, key=lambda i: small[i])))
            elif "many" in case and mx >= 99 and len(inside) > 4 * mx:
                # the third that is picked at random comes from the whole of them
                order = sorted(inside, key=lambda i: large[i])
                for q in range(4):
                    if not set(order[q * len(order) // 4:(q + 1) * len(order) // 4]) & set(sel):
                        res.bad("%s: none is chosen of the %d. quarter in order of the large correlation" % (tag, q + 1))
            if len(inside):
                res.nontrivial(inside if "many" in case else [case["pts"][i] for i in inside], mx, pv)
        if res.problems:
            break
    return res
