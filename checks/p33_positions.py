"""P33: the reference positions recorded with a mapping are those of the data it used."""
import itertools

import numpy as np

import model
import pipe
import world as W
from engine import Result
from util import subsets

PROP = "P33"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of arrangements of casts (pairs and chains around the distance of one minute, kinds of casts, numbers of profiles and runs) on the real mapping, compared with the casts the reference model uses"
NOTE = "All arrangements within stated bounds; which casts a level uses is decided by an independent model (the one P04 binds to the code level by level)."
RULE = ("one case = one arrangement of reference casts, settings and float profiles, mapped in one or several runs; an evaluation is one mapped file; "
        "non-trivial = distinct (number of positions listed, number of casts used, attribution)")
ASSUMPTIONS = ["no more casts around a profile than the maximum", "no two casts exactly a minute apart", "next to Greenwich the same place may be listed once on each side"]
NAN = np.nan
F = "3901234"
CENTERS = [(-14.7, 70.4), (33.5, 359.93), (-0.04, 179.95), (5.02, 310.02)]
STEPS = [0.0, 0.4, 0.9, 1.1, 20.0]
SIGNED = sorted({s * v for v in STEPS for s in (1, -1)})
KINDS = ["outlier", "outlier_level", "shallow", "deep", "far", "empty", "salty_ok"]
CONFIGS = [{}, {"MAP_USE_PV": 1}, {"MAP_P_DELTA": 40}, {"MAP_P_EXCLUDE": 900}, {"MAPSCALE_LONGITUDE_LARGE": 0.7, "MAPSCALE_LATITUDE_LARGE": 0.5}]


def setup(tier):
    pipe.shared_topo()


def cases(tier):
    big = tier == "thorough"
    for c in range(len(CENTERS)):
        for a in SIGNED:
            if big or c == 0:
                for kinds in (("ctd",), ("ctd", "argo")):
                    yield {"family": "pair", "center": c, "dlat": a, "kinds": list(kinds)}
            else:
                yield {"family": "pair", "center": c, "dlat": a, "kinds": ["ctd"]}
        for first in range(4):
            yield {"family": "chain", "center": c, "first": first, "length": 4 if big else 3}
    for n in (1, 2, 3):
        for k in range(len(CONFIGS)):
            for size in range(0, len(KINDS) + 1 if big else 3):
                yield {"family": "kinds", "profiles": n, "cfg": k, "size": size}
    for mask in itertools.product((0, 1), repeat=4):
        yield {"family": "unmapped", "mask": list(mask)}
    for size in (40, 150, 290):
        yield {"family": "many", "casts": size}


def around(i, center):
    """cast i of those that are there in any case: more than a minute from each other"""
    c = pipe.hist_cast(i, center, spread=1.6)
    c["long"] %= 360.0
    return c


def judge(res, m, profs, casts, cfg, tag, center):
    """problem of the positions listed in the mapped file m"""
    place = [(c["lat"], c["long"] % 360.0) for c in casts]
    uses, some = {}, False
    for p in profs:
        used = set()
        model.map_profile(p, casts, cfg, used=used)
        uses[p["no"]] = used
        some |= bool(used)
    listed = np.asarray(m["selected_hist"], float).reshape(-1, 3)
    if not some:
        return None if listed.size == 0 else "nothing is mapped, and %d positions are listed" % len(listed)
    if list(listed[:, 2]) != sorted(listed[:, 2]):
        return "not in the order of the profiles: %s" % listed[:, 2]
    turn = lambda x: (x + 180.0) % 360.0 - 180.0
    for x, y, no in listed:
        if no not in uses:
            return "a position is attributed to profile %r" % no
        if not any(abs(place[k][0] - y) < 1e-6 and abs(turn(place[k][1] - x)) < 1e-6 for k in uses[no]):
            return "profile %d used no cast at %.5f %.5f" % (no, y, x)
    every = set().union(*uses.values())
    for k in sorted(every):
        lat, lon = place[k]
        if not any(abs(lat - y) < 1 / 60 and abs(turn(lon - x)) < 1 / 60 for x, y, no in listed):
            return "the cast at %.5f %.5f was used (by %s), no position within a minute of it is listed" % (lat, lon, [n for n in uses if k in uses[n]])
    for (a, b) in itertools.combinations(range(len(listed)), 2):
        if abs(listed[a, 0] - listed[b, 0]) < 1 / 60 and abs(listed[a, 1] - listed[b, 1]) < 1 / 60:
            return "positions %s and %s are listed both" % (listed[a], listed[b])
    res.nontrivial(len(listed), len(every), listed[:, 2].tolist(), center)
    return None


def execute(res, casts, profs, sets, kinds, runs, tag, center, flip=False):
    ref = {}
    for i, c in enumerate(casts):
        ref.setdefault((kinds[i % len(kinds)], W.box_number(c["lat"], c["long"])), []).append(c)
    if flip:
        ref = {k: v[::-1] for k, v in ref.items()}
    with pipe.world(ref) as w:
        cfg = w.config(**sets)
        for upto in runs:
            w.add_float(F, profs[:upto], levels=max(len(p["pres"]) for p in profs))
            pipe.do_map(cfg, F)
        m = pipe.mapped(cfg, F)
        res.count("evaluations")
        try:
            bad = judge(res, m, profs, casts, cfg, tag, center)
        except model.Ambiguous:
            res.count("ambiguous")
            return True
    if bad:
        res.bad("%s: %s" % (tag, bad))
    return not bad


def run_pair(case, res):
    center = CENTERS[case["center"]]
    for dlon in SIGNED:
        for flip in (False, True):
            casts = [around(i, center) for i in range(9)]
            for k, base in enumerate((0, 4)):
                c = around(20 + k, center)
                c["lat"] = casts[base]["lat"] + case["dlat"] / 60
                c["long"] = (casts[base]["long"] + dlon / 60) % 360.0
                casts.append(c)
            profs = [pipe.profile(k + 1, center, step=0.2) for k in range(2)]
            if not execute(res, casts, profs, {}, case["kinds"], [2], "casts %g and %g minutes apart, %s, order %d" % (case["dlat"], dlon, center, flip), case["center"], flip):
                return


def run_chain(case, res):
    center = CENTERS[case["center"]]
    steps = [0.0, 0.6, 0.9, 1.1]
    for rest in itertools.product(range(4), repeat=case["length"] - 1):
        word = [steps[case["first"]]] + [steps[k] for k in rest]
        casts = [around(i, center) for i in range(7)]
        for direction in (0, 1):
            lat, lon = center[0] + 0.3 - 0.7 * direction, center[1] + 0.4
            for k, s in enumerate([0.0] + word):
                c = around(30 + 10 * direction + k, center)
                lat, lon = (lat + s / 60, lon) if direction else (lat, lon + s / 60)
                c["lat"], c["long"] = lat, lon % 360.0
                casts.append(c)
        profs = [pipe.profile(1, center)]
        if not execute(res, casts, profs, {}, ["bot"], [1], "chain with steps %s, %s" % (word, center), case["center"]):
            return


def run_kinds(case, res):
    center = CENTERS[0]
    n = case["profiles"]
    for pick in subsets(len(KINDS), case["size"], case["size"]) if case["size"] else [()]:
        for runs in ([n], list(range(1, n + 1))) if n > 1 else ([n],):
            casts = [around(i, center) for i in range(14)]
            for k in pick:
                c = around(40 + k, center)
                kind = KINDS[k]
                if kind == "outlier":
                    c["sal"] = c["sal"] + 1.2
                elif kind == "outlier_level":
                    c["sal"] = np.array(c["sal"])
                    c["sal"][len(c["sal"]) // 2:] += 1.1
                elif kind == "shallow":
                    for q in ("pres", "ptmp", "sal"):
                        c[q] = np.array(c[q])[:4]
                elif kind == "deep":
                    for q in ("pres", "ptmp", "sal"):
                        c[q] = np.array(c[q])[5:]
                elif kind == "far":
                    c["lat"], c["long"] = center[0] + 14.0, center[1] + 17.0
                elif kind == "empty":
                    c["sal"] = NAN * np.array(c["sal"])
                casts.append(c)
            profs = [pipe.profile(2 * k + 1, center, step=0.25) for k in range(n)]
            tag = "casts that are %s, %d profiles in runs %s, %s" % ([KINDS[k] for k in pick], n, runs, CONFIGS[case["cfg"]])
            if not execute(res, casts, profs, CONFIGS[case["cfg"]], pipe.KINDS, runs, tag, case["cfg"]):
                return


def run_unmapped(case, res):
    for shift in range(2):
        center = CENTERS[0]
        casts = [around(i, center) for i in range(11)]
        profs = []
        for k, ok in enumerate(case["mask"]):
            p = pipe.profile(4 - k if shift else k + 1, center)
            if not ok:
                if k % 2:
                    p["lat"] = p["long"] = NAN
                else:
                    p.update(lat=60.0, long=150.0)
            profs.append(p)
        for runs in ([4], [1, 2, 3, 4], [2, 4]):
            if not execute(res, casts, profs, {}, pipe.KINDS, runs, "profiles with data %s, numbers %s, runs %s" % (case["mask"], [p["no"] for p in profs], runs), shift):
                return


def run_many(case, res):
    center = CENTERS[0]
    casts = []
    for i in range(case["casts"]):
        c = around(i, center)
        c["lat"] = center[0] + 0.021 * (i % 17 - 8) + 0.003 * (i % 5)
        c["long"] = center[1] + 0.019 * (i // 17 - 8) + 0.004 * (i % 3)
        casts.append(c)
    profs = [pipe.profile(k + 1, center, step=0.05, levels=pipe.LEVELS[:4]) for k in range(3)]
    for runs in ([3], [1, 3]):
        if not execute(res, casts, profs, {}, ["ctd"], runs, "%d casts" % case["casts"], case["casts"]):
            return


def run(case):
    res = Result()
    {"pair": run_pair, "chain": run_chain, "kinds": run_kinds, "unmapped": run_unmapped, "many": run_many}[case["family"]](case, res)
    return res
