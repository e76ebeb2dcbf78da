"""P30: results depend on the observations only, not on how the files hold them."""
import itertools
import os

import numpy as np
from scipy.io import loadmat, savemat

import pipe
import world as W
from engine import Result
from util import subsets

PROP = "P30"
LEVEL = "exploration"
TECHNIQUE = "exhaustive exploration of the ways to hold the same observations (types and order of casts, missing levels, classes, variables, useless casts), each mapped and calibrated by the real stages and compared with the plain files"
NOTE = "Complete within the stated bounds; relation between two executions. Deviations beyond rounding count."
RULE = ("one case = a way to hold the observations and a setting, with all its assignments, permutations or positions; an evaluation is a float mapped (and calibrated) from such files; "
        "non-trivial = distinct files")
ASSUMPTIONS = ["no more casts than the maximum (beyond it a part of the selection is random)", "no two casts at the same place and time", "errors of calibrations with breaks are left out"]
BATCH = 1
NAN = np.nan
F = "3901234"
CONFIGS = [{}, {"MAP_USE_PV": 1, "MAP_P_EXCLUDE": 0}, {"MAP_USE_SAF": 1, "MAP_P_DELTA": 120}]
SOUTH = (-44.7, 70.4)
VARS = ("lat", "long", "dates", "sal", "ptmp", "pres")
FLOAT_VARS = ("PRES", "SAL", "PTMP", "TEMP")


def setup(tier):
    pipe.shared_topo()


def cases(tier):
    big = tier == "thorough"
    for k in range(len(CONFIGS)):
        for first in itertools.product(range(3), repeat=2):
            yield {"way": "types", "cfg": k, "first": list(first), "n": 6 if big else 4}
        for first in range(5):
            yield {"way": "order", "cfg": k, "first": first, "n": 6 if big else 5}
        for first in range(12):
            yield {"way": "rows", "cfg": k, "first": first, "more": 2 if big else 1}
        for first in range(9):
            yield {"way": "levels", "cfg": k, "first": first, "more": 2 if big else 1}
            yield {"way": "uneven", "cfg": k, "first": first, "more": 3 if big else 2}
        for first in range(len(USELESS)):
            yield {"way": "useless", "cfg": k, "first": first, "more": 2 if big else 1}
        for first in range(4):
            for flags in (None, [1, 1, 2, 2], [3, 0, 3, 1]) if big or k == 0 else (None,):
                yield {"way": "columns", "cfg": k, "first": first, "flags": flags}
        for long in (WEST if big or k == 0 else WEST[k:k + 1]):
            yield {"way": "turns", "cfg": k, "long": long}
        for first in range(len(CLASSES)):
            yield {"way": "classes", "cfg": k, "first": first}


USELESS = [("far", a, b) for a, b in ((-14.0, 0.0), (14.0, 0.0), (-14.0, 17.0), (14.0, -17.0), (0.0, 24.6), (0.0, -24.6), (10.0, 20.0), (-10.0, 20.0), (9.7, -20.0), (-10.0, -20.0))] + [
    ("nosal", 0.2, 0.3), ("noptmp", -0.3, 0.5), ("nopres", 0.6, -0.2), ("deep", 0.1, 0.1), ("nolat", 0.3, 0.2), ("nolong", -0.2, 0.4)]
CLASSES = ["number:" + t for t in ("int8", "uint8", "int16", "uint16", "int32", "float32")] + [
    "compressed", "more", "nolevels", "4", "flat", "strings", "dates:int64", "sources", "blank", "lat:single"]


def run(case):
    res = Result()
    center = SOUTH if CONFIGS[case["cfg"]].get("MAP_USE_SAF") else pipe.HERE
    if "long" in case:
        center = (center[0], case["long"])
    casts = [pipe.hist_cast(i, center, 1.3) for i in range(13)]
    for c in casts:
        c["long"] %= 360.0
    if CONFIGS[case["cfg"]].get("MAP_USE_SAF"):
        for i, c in enumerate(casts):
            c["ptmp"] = c["ptmp"] - (6.0 if i % 3 else 0.0)     # the criterion keeps two thirds
    profs = [pipe.profile(k, center, step=0.09) for k in range(4)]
    for k, p in enumerate(profs):
        p["sal"] = p["sal"] + 0.01 * np.sin(1.3 * k)
        p["long"] %= 360.0
        if CONFIGS[case["cfg"]].get("MAP_USE_SAF"):
            p["ptmp"] = p["ptmp"] - 6.0
            p["temp"] = p["temp"] - 6.0
    plain = process(case, casts, profs, lambda cfg: None)
    globals()["way_" + case["way"]](case, casts, profs, plain, res)
    return res


def process(case, casts, profs, change, kinds=None, order=None):
    """mapped columns, reference positions, calibrated quantities after the files were changed by change(cfg)"""
    ref = {}
    for i in order or range(len(casts)):
        c = casts[i]
        kind = kinds[i] if kinds else "ctd"
        ref.setdefault((kind, W.box_number(c["lat"], c["long"]) if "box" not in c else c["box"]), []).append(c)
    with pipe.world(ref) as w:
        cfg = w.config(**CONFIGS[case["cfg"]])
        w.add_float(F, profs, levels=len(pipe.LEVELS))
        keep = change(cfg)
        pipe.do_map(cfg, F)
        m = pipe.mapped(cfg)
        if case["way"] not in ("levels", "uneven", "classes", "columns", "turns") or keep is not None and any(np.any(np.diff(r) > 1) for r in keep):
            return m, None, keep    # the calibration does not interpolate across a missing level
        pipe.do_series(cfg, F)
        p = pipe.path(cfg, "series", F)
        s = pipe.read(p)
        s["max_breaks"] = np.array([[-1]])
        if case.get("flags"):
            s["calseries"] = np.array([[case["flags"][int(no)] for no in np.ravel(s["calib_profile_no"])]], float)
        savemat(p, s)
        pipe.do_fit(cfg, F)
        return m, pipe.read(pipe.path(cfg, "cal", F)), keep


def compare(got, plain, anywhere=False):
    """first difference; got[2] = indices of the levels of each profile (None: the same)"""
    m, c, keep = got
    m0, c0, _ = plain
    a, b = pipe.columns(m), pipe.columns(m0)
    if list(a) != list(b):
        return "profiles %s instead of %s" % (list(a), list(b))
    for j, k in enumerate(a):
        rows = list(range(len(pipe.LEVELS))) if keep is None else keep[j]
        for q in pipe.PER_LEVEL:
            u, v = np.asarray(a[k][q], float), np.asarray(b[k][q], float)
            rest = np.delete(u, rows)
            if not pipe.same_var(u[rows], v, 1e-7):
                return "%s of profile %d: %s instead of %s" % (q, k, np.round(u[rows], 8), np.round(v, 8))
            if np.isfinite(rest).any():
                return "%s of profile %d at missing levels: %s" % (q, k, rest)
        for q in pipe.SETTINGS:
            if not pipe.same_var(a[k][q], b[k][q]):
                return "%s of profile %d: %r instead of %r" % (q, k, a[k][q], b[k][q])
        if c is None:
            continue
        place = [np.ravel(x["PROFILE_NO"]).tolist().index(k) for x in (c, c0)]
        for q in ("cal_SAL", "cal_SAL_err", "cal_COND", "cal_COND_err", "sta_SAL"):
            u, v = np.asarray(c[q], float)[:, place[0]], np.asarray(c0[q], float)[:, place[1]]
            if not pipe.same_var(u[rows], v, 1e-6):
                return "%s of profile %d: %s instead of %s" % (q, k, np.round(u[rows], 8), np.round(v, 8))
        for q in ("pcond_factor", "pcond_factor_err", "time_deriv"):
            u, v = np.asarray(c[q], float)[0, place[0]], np.asarray(c0[q], float)[0, place[1]]
            if not pipe.same_var(u, v, 1e-6):
                return "%s of profile %d: %r instead of %r" % (q, k, u, v)
    u, v = sorted(pipe.places(m)), sorted(pipe.places(m0))
    if anywhere:            # who used them first depends on the order of the profiles
        u, v = [w[:2] for w in u], [w[:2] for w in v]
    if u != v:
        return "reference positions %s instead of %s" % (u[:4], v[:4])
    return None


def judge(res, what, got, plain, key, anywhere=False):
    res.count("evaluations")
    bad = compare(got, plain, anywhere)
    if bad:
        res.bad("%s: %s" % (what, bad))
        return False
    res.nontrivial(*key)
    return True


def way_types(case, casts, profs, plain, res):
    for rest in itertools.product(range(3), repeat=case["n"] - 2):
        word = case["first"] + list(rest)
        kinds = [pipe.KINDS[word[i % len(word)]] for i in range(len(casts))]
        if not judge(res, "setting %d, casts are %s" % (case["cfg"], kinds[:case["n"]]), process(case, casts, profs, lambda cfg: None, kinds), plain, (case["cfg"], kinds)):
            return


def way_order(case, casts, profs, plain, res):
    n = case["n"]
    for perm in itertools.permutations(range(n)):
        if perm[0] != case["first"]:
            continue
        order = [2 * i for i in perm] + [i for i in range(len(casts)) if i % 2 or i // 2 >= n]
        if perm[1] > perm[2]:
            order = order[::-1]
        if not judge(res, "setting %d, casts in the order %s" % (case["cfg"], order), process(case, casts, profs, lambda cfg: None, order=order), plain, (case["cfg"], order)):
            return


def reference_files(cfg):
    for d, _, files in os.walk(cfg["HISTORICAL_DIRECTORY"]):
        for f in sorted(files):
            yield os.path.join(d, f)


def put_rows(a, at):
    """missing rows put before the rows at"""
    return np.insert(np.asarray(a, float), sorted(at), NAN, axis=0)


def way_rows(case, casts, profs, plain, res):
    for more in [m for k in range(case["more"] + 1) for m in itertools.combinations_with_replacement(range(case["first"], 12), k)]:
        at = (case["first"],) + more

        def change(cfg):
            for p in reference_files(cfg):
                d = pipe.read(p)
                for q in ("sal", "ptmp", "pres", "temp"):
                    if q in d:
                        d[q] = put_rows(d[q], [min(i, len(d[q])) for i in at])
                savemat(p, d)
        if not judge(res, "setting %d, missing rows before the rows %s of the reference files" % (case["cfg"], at), process(case, casts, profs, change), plain, (case["cfg"], at)):
            return


def kept(at, n):
    return np.flatnonzero(np.isfinite(put_rows(np.zeros((n, 1)), at)[:, 0]))


def way_levels(case, casts, profs, plain, res):
    n = len(pipe.LEVELS)
    for more in [m for k in range(case["more"] + 1) for m in itertools.combinations_with_replacement(range(case["first"], n + 1), k)]:
        at = (case["first"],) + more

        def change(cfg):
            p = pipe.path(cfg, "source", F)
            d = pipe.read(p)
            for q in FLOAT_VARS:
                d[q] = put_rows(d[q], at)
            savemat(p, d)
            return [kept(at, n)] * len(profs)
        if not judge(res, "setting %d, missing levels before the levels %s of the float" % (case["cfg"], at), process(case, casts, profs, change), plain, (case["cfg"], at)):
            return


def way_uneven(case, casts, profs, plain, res):
    """each profile has its missing level elsewhere"""
    n = len(pipe.LEVELS)
    for rest in itertools.product((0, 3, 8) if case["more"] == 2 else range(n + 1), repeat=2):
        at = ((case["first"],), (rest[0],), (rest[1],), ((case["first"] + rest[0]) % (n + 1),))

        def change(cfg):
            p = pipe.path(cfg, "source", F)
            d = pipe.read(p)
            for q in FLOAT_VARS:
                d[q] = np.hstack([put_rows(d[q][:, j:j + 1], at[j]) for j in range(len(profs))])
            savemat(p, d)
            return [kept(a, n) for a in at]
        if not judge(res, "setting %d, a missing level of the profiles before their levels %s" % (case["cfg"], at), process(case, casts, profs, change), plain, (case["cfg"], at)):
            return


def way_columns(case, casts, profs, plain, res):
    """the profiles of the float in another order than that of their numbers"""
    for perm in itertools.permutations(range(len(profs))):
        if perm[0] != case["first"]:
            continue

        def change(cfg):
            p = pipe.path(cfg, "source", F)
            d = pipe.read(p)
            for q in FLOAT_VARS + ("LAT", "LONG", "DATES", "PROFILE_NO"):
                d[q] = d[q][:, perm]
            savemat(p, d)
        if not judge(res, "setting %d, profiles in the order %s" % (case["cfg"], perm), process(case, casts, profs, change), plain, (case["cfg"], perm), True):
            return


WEST = [310.3, 359.82, 182.4]


def way_turns(case, casts, profs, plain, res):
    """longitudes of some or all profiles and casts are written with a minus"""
    for which in subsets(len(profs), 1):
        for west in (0, 1):

            def change(cfg):
                p = pipe.path(cfg, "source", F)
                d = pipe.read(p)
                for k in which:
                    if d["LONG"][0, k] > 180:
                        d["LONG"][0, k] -= 360.0
                savemat(p, d)
                for p in reference_files(cfg) if west else ():
                    d = pipe.read(p)
                    d["long"] = np.where(d["long"] > 180, d["long"] - 360.0, d["long"])
                    savemat(p, d)
            if not judge(res, "setting %d, profiles %s at %g written with a minus, casts: %d" % (case["cfg"], which, case["long"], west), process(case, casts, profs, change), plain, (case["cfg"], which, west)):
                return


def useless(i, center):
    how, dlat, dlong = USELESS[i]
    c = pipe.hist_cast(60 + i, center, 0.4)
    c["box"] = W.box_number(center[0] + dlat, center[1] + dlong)
    c["lat"], c["long"] = center[0] + dlat, center[1] + dlong
    for q in ("sal", "ptmp", "pres"):
        if how == "no" + q:
            c[q] = c[q] * NAN
    if how == "deep":           # no level near those of the float
        c["pres"] = c["pres"] + 4000.0
    if how in ("nolat", "nolong"):
        c[how[2:]] = NAN
    if how == "nodate":
        c["date"] = NAN
    return c


def way_useless(case, casts, profs, plain, res):
    center = SOUTH if CONFIGS[case["cfg"]].get("MAP_USE_SAF") else pipe.HERE
    for more in subsets(len(USELESS), 0, case["more"]):
        which = (case["first"],) + more
        both = casts + [useless(i, center) for i in which]
        n = len(casts)
        for order in (list(range(len(both))), list(range(n, len(both))) + list(range(n))):
            for kind in range(3):
                if kind and len(more):
                    continue
                kinds = ["ctd"] * n + [pipe.KINDS[kind]] * len(which)
                if not judge(res, "setting %d, with %s casts %s, in the order %s" % (case["cfg"], pipe.KINDS[kind], [USELESS[i] for i in which], order),
                             process(case, both, profs, lambda cfg: None, kinds, order), plain, (case["cfg"], which, order, kind)):
                    return


def blanks(names):
    out = np.empty(np.shape(names), dtype=object)
    for i, k in enumerate(np.ndindex(out.shape)):
        out[k] = ("", "   ")[i % 2]
    return out


def way_classes(case, casts, profs, plain, res):
    how, _, arg = CLASSES[case["first"]].partition(":")

    def change(cfg):
        src = pipe.path(cfg, "source", F)
        d = pipe.read(src)
        if how == "number":
            d["PROFILE_NO"] = d["PROFILE_NO"].astype(arg)
        if how == "more":
            d.update(CYCLE_NO=d["PROFILE_NO"] + 100, DEPTH=np.ones((3, 3)), note="nothing", WMO=np.array([["3901234"]], dtype=object))
        savemat(src, d, do_compression=how == "compressed", format="4" if how == "4" else "5")
        for p in reference_files(cfg):
            r = pipe.read(p)
            if how == "more":
                r.update(qclevel=np.array([["a"] * r["lat"].size], dtype=object), oxygen=np.ones_like(r["sal"]), note="nothing")
            if how == "dates":
                r["dates"] = r["dates"].astype(arg)
            if how == "flat":
                for q in ("lat", "long", "dates"):
                    r[q] = r[q].T
            if how == "sources":
                del r["source"]
            if how == "blank":        # profiles that say nothing about where they come from
                r["source"] = blanks(r["source"])
            savemat(p, r, do_compression=how == "compressed")
        p = os.path.join(cfg["CONFIG_DIRECTORY"], cfg["CONFIG_WMO_BOXES"])
        b = pipe.read(p)
        if how == "number":
            b["la_wmo_boxes"] = b["la_wmo_boxes"].astype("int32" if "8" in arg else arg)
        savemat(p, b, do_compression=how == "compressed")
    judge(res, "setting %d, %s" % (case["cfg"], CLASSES[case["first"]]), process(case, casts, profs, change, None if how == "sources" else [pipe.KINDS[i % 3] for i in range(len(casts))]), plain, (case["cfg"], how, arg))
