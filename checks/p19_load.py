"""P19: the casts loaded are exactly the casts that were located and selected."""
import itertools
import os

import numpy as np

import world as W
from engine import Result
from util import subsets

PROP = "P19"
LEVEL = "exploration"
RULE = ("one case = one assignment of level patterns to the casts of two boxes with three types of files; an evaluation is one selection (all subsets of the located casts) "
        "loaded with one float depth; non-trivial = distinct (patterns, selection)")
ASSUMPTIONS = ["positions and dates identify a cast", "files are readable (damaged files are the subject of P08)"]
BATCH = 2
NAN = np.nan
FLOAT = "3901234"

# level patterns: one letter per level: g good, s no salinity, t no temperature, p no pressure, n nothing, D below the float
PATTERNS = ["ggg", "g", "gsg", "tgg", "gpggg", "ggDD", "DDD", "sss", "nggn", "pgpg", "gggDgg", "ppp", "gDg", "gggggg", "st", "gn"]
SIZES = list(itertools.product((0, 1, 2, 3), repeat=3))


def cases(tier):
    for size in ((60, 300), (150, 130), (330, 70), (700, 40), (1400, 20), (60, 1400)):
        yield {"large": list(size)}
    k = 0
    for sizes in SIZES:
        if sum(sizes) == 0:
            continue
        for other in ((0, 0, 0), (1, 0, 2), (2, 2, 1)) if tier == "quick" else SIZES[::5] + [(1, 0, 2), (2, 2, 1), (3, 3, 3)]:
            if sum(sizes) + sum(other) > (8 if tier == "quick" else 10):
                continue
            for rot in range(1 if tier == "quick" else 3):
                yield {"files": [sizes, other], "rot": k * 5 + rot * 7, "own": k % 3}
            k += 1


def make(pattern, seed):
    """levels in increasing pressure; D deeper than 1000 + delta"""
    out = {"pres": [], "ptmp": [], "sal": []}
    good, deep = 100.0 + 3 * seed, 1400.0 + 2 * seed
    for i, c in enumerate(pattern):
        if c == "D":
            p = deep = deep + 25
        else:
            p = good = good + 60
        v = [p, 12.0 - p / 200.0 + 0.01 * seed, 34.0 + p / 5000.0 + 0.001 * seed]
        if c in "pn":
            v[0] = NAN
        if c in "tn":
            v[1] = NAN
        if c in "sn":
            v[2] = NAN
        for key, x in zip(("pres", "ptmp", "sal"), v):
            out[key].append(x)
    return {k: np.array(v) for k, v in out.items()}


LONS = [[352.0, 8.0], [8.0, 18.0], [172.0, 182.0], [222.0, 232.0]]


def large(case):
    """as many casts as in reality, in three boxes and all types; every selection by a step or a range, and all"""
    from pyowc.data.fetchers import get_region_hist_locations, get_region_data
    res = Result()
    n, levels = case["large"]
    with W.World(topo="/dev/null") as w:
        casts, table = [], []
        for b, lon0 in enumerate((8.0, 18.0, 352.0)):
            box = W.box_number(-45.0, lon0)
            w.flags[box] = (0, 0, 0)
            for t, kind in enumerate(("ctd", "bot", "argo")):
                here = []
                for i in range(n * (1 + b) * (3 - t) // 18):
                    k = len(casts) + len(here)
                    c = {"lat": -45.0 - 0.0041 * k, "long": lon0 + 0.0013 * k, "date": float(int("20%02d%02d%02d120000" % (k % 20, 1 + k % 12, 1 + (k * 7) % 28))),
                         "pattern": "", "source": "9%06d" % k}
                    word = "".join("gggggsggtgggpggDggn"[(i * 5 + j * (1 + i % 4)) % 19] for j in range(1 + (i * (13 if levels < 1000 else 97)) % levels))
                    c.update(make(word, 0))
                    c["pres"] = c["pres"] * 0.9 * 6 / (6 + len(word) / 10) + 0.01 * k
                    here.append(c)
                if here:
                    w.add_reference(kind, box, here)
                casts += here
            table.append([box] + list(w.flags[box]))
        table = np.array(table, float)
        cfg = w.config(MAP_P_DELTA=250)
        lat, lon, dates = get_region_hist_locations(table, FLOAT, cfg)
        place = [(round(a, 9), round(b % 360, 9), round(d, 6)) for a, b, d in zip(lat, lon, dates)]
        where = {(round(c["lat"], 9), round(c["long"] % 360, 9), round(W.decimal_year(c["date"]), 6)): c for c in casts}
        if sorted(place) != sorted(where):
            res.bad("%d casts located instead of %d, or others" % (len(place), len(where)))
            return res
        m = len(place)
        picks = [list(range(m)), list(range(m))[::-1], [m - 1], [0, m - 1]] + [list(range(o, m, s)) for s in (2, 3, 7, 50) for o in (0, s - 1)]
        picks += [list(range(a, min(m, a + 300))) for a in range(0, m, 150)] + [sorted(range(m), key=lambda i: (i * 7919) % m)[:300]]
        for sub in picks:
            for deepest in (900.0, 1700.0):
                res.count("evaluations")
                text = check(get_region_data(table, FLOAT, cfg, np.array(sub), np.array([20.0, NAN, deepest])), [where[place[i]] for i in sub], deepest + 250)
                if text:
                    res.bad("%d casts, selection of %d (%s...), deepest %g: %s" % (m, len(sub), sub[:3], deepest, text))
                    return res
                res.nontrivial(n, len(sub), sub[0], deepest)
    return res


def run(case):
    if "large" in case:
        return large(case)
    from pyowc.data.fetchers import get_region_hist_locations, get_region_data
    res = Result()
    seed = case["rot"]
    lons = LONS[seed % 4]
    with W.World(topo="/dev/null") as w:
        casts, boxes = [], []
        k = 0
        for b, sizes in enumerate(case["files"]):
            lon0 = lons[b]
            box = W.box_number(-45.0, lon0)
            boxes.append(box)
            w.flags[box] = (0, 0, 0)
            for kind, n in zip(("ctd", "bot", "argo"), sizes):
                here = []
                for i in range(n):
                    lon = lon0 + 0.37 * i + 0.11 * k
                    if (seed + i) % 3 == 1 and lon > 180:
                        lon -= 360.0
                    c = {"lat": -45.0 - 0.21 * k, "long": lon, "date": float(int("20%02d%02d%02d120000" % ((k * 3 + seed) % 20, 1 + k % 12, 1 + (k * 7 + seed) % 28))),
                         "pattern": PATTERNS[(seed + 3 * k + i) % len(PATTERNS)], "source": "9%06d" % k, "own": False}
                    c.update(make(c["pattern"], k))
                    if kind == "argo" and case["own"] and i == (case["own"] - 1):
                        c["source"], c["own"] = FLOAT, True
                    here.append(c)
                    k += 1
                if here:
                    # padding beyond the longest cast in some files
                    w.add_reference(kind, box, here, depth=max(len(c["pres"]) for c in here) + (seed + b) % 3)
                    casts += [c for c in here if not c["own"]]
        cfg = w.config(MAP_P_DELTA=250)
        for order in ([0, 1], [1, 0]):
            table = np.array([[boxes[o]] + list(w.flags[boxes[o]]) for o in order] + [[NAN] * 4, [1234, 0, 0, 0]][1:], float)
            if not casts:
                try:
                    get_region_hist_locations(table, FLOAT, cfg)
                    res.bad("locations found without casts")
                except ValueError:
                    res.nontrivial("none")
                break
            lat, lon, dates = get_region_hist_locations(table, FLOAT, cfg)
            want = sorted((round(c["lat"], 9), round(c["long"] % 360, 9), round(W.decimal_year(c["date"]), 6)) for c in casts)
            place = [(round(a, 9), round(b % 360, 9), round(d, 6)) for a, b, d in zip(lat, lon, dates)]
            if sorted(place) != want:
                res.bad("located %s instead of %s" % (sorted(place), want))
                return res
            where = {p: c for p, c in zip([(round(c["lat"], 9), round(c["long"] % 360, 9), round(W.decimal_year(c["date"]), 6)) for c in casts], casts)}
            for sub in subsets(len(place), 1):
                edge = np.concatenate([where[place[i]]["pres"] for i in sub])
                edge = edge[np.isfinite(edge)]
                # the last: a level exactly at the limit
                limits = [(1000.0, np.array(sub)), (1300.0, np.array(sub[::-1]))] + [(float(e) - 250, np.array(sub)) for e in edge[-1:] if e > 250]
                for deepest, index in limits:
                    res.count("evaluations")
                    pres = np.array([20.0, NAN, deepest, min(500.0, deepest - 1), NAN])
                    text = check(get_region_data(table, FLOAT, cfg, index, pres), [where[place[i]] for i in sub], deepest + 250)
                    if text:
                        res.bad("boxes %s order %s selection %s deepest %g: %s" % (case["files"], order, sub, deepest, text))
                        return res
                    res.nontrivial(tuple(where[place[i]]["pattern"] for i in sub), deepest)
    return res


def check(d, selected, limit):
    want = {}
    for c in selected:
        ok = np.isfinite(c["pres"]) & np.isfinite(c["sal"]) & np.isfinite(c["ptmp"]) & (c["pres"] <= limit)
        if ok.any():
            want[(round(c["lat"], 9), round(c["long"] % 360, 9), round(W.decimal_year(c["date"]), 6))] = [
                tuple(v) for v in np.column_stack([c["pres"], c["sal"], c["ptmp"]])[ok]]
    n = len(d["grid_lat"])
    for key in ("grid_long", "grid_dates"):
        if len(d[key]) != n:
            return "%d latitudes but %d %s" % (n, len(d[key]), key)
    for key in ("grid_sal", "grid_pres", "grid_ptmp"):
        if np.asarray(d[key]).ndim != 2 or np.asarray(d[key]).shape[1] != n:
            return "%d latitudes but %s has shape %s" % (n, key, np.asarray(d[key]).shape)
    got = {}
    for j in range(n):
        key = (round(float(d["grid_lat"][j]), 9), round(float(d["grid_long"][j]) % 360, 9), round(float(d["grid_dates"][j]), 6))
        if key in got:
            return "cast %s comes twice" % (key,)
        a = np.column_stack([d["grid_pres"][:, j], d["grid_sal"][:, j], d["grid_ptmp"][:, j]])
        nan = np.isnan(a)
        if np.any(nan.any(axis=1) != nan.all(axis=1)):
            return "cast %s has incomplete levels" % (key,)
        got[key] = [tuple(v) for v in a[~nan.any(axis=1)]]
    if set(got) != set(want):
        return "casts missing %s, not selected %s" % (sorted(set(want) - set(got))[:3], sorted(set(got) - set(want))[:3])
    for key in want:
        if len(got[key]) != len(want[key]) or not np.allclose(got[key], want[key], rtol=0, atol=1e-9):
            return "cast %s has levels %s instead of %s" % (key, got[key], want[key])
