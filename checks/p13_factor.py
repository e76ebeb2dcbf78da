"""P13: calibration is one conductivity factor per profile, applied to every level."""
import itertools
import os

import gsw
import numpy as np

import pipe
import world as W
from engine import Result
from util import subsets

PROP = "P13"
LEVEL = "exploration"
TECHNIQUE = "exhaustive exploration of bounded families of floats (missing data, flags, numbers of profiles, breaks, imposed conductivity errors) calibrated by the real stage, results recomputed from the stored factors and compared with the imposed error"
NOTE = "The conversion of conductivity to salinity is that of the gsw library; the mapped data are given, so that the right factors are known."
RULE = ("one case = one family with one imposed error and one number of breaks; an evaluation is one calibration; non-trivial = distinct (family member, missing pattern of the results)")
ASSUMPTIONS = ["a series has at least two profiles with mapped levels", "profiles come in the order of their numbers"]
BATCH = 1
NAN = np.nan
F = "3901234"
LEV = np.array([10.0, 120, 240, 360, 480, 600, 720, 840, 960, 1080, 1200, 1320, 1440, 1560])
NUMBERS = {"plain": [1, 2, 3, 4, 5, 6, 7], "gaps": [1, 2, 5, 9, 10, 30, 31], "late": [101, 103, 104, 108, 112, 113, 115], "zero": [0, 1, 2, 3, 4, 5, 6]}
SHRINK = 64.0
SCALES = {"MAPSCALE_LONGITUDE_SMALL": 4 / SHRINK, "MAPSCALE_LATITUDE_SMALL": 2 / SHRINK}
MIN_DRIFT = 6          # independent profiles needed to tell a drift from an offset
ERRORS = [(1.0, 0.0), (0.9994, 0.0), (1.0012, 0.0), (1.0, 2e-5), (1.0007, -3e-5)]


def setup(tier):
    pipe.shared_topo()


def cases(tier):
    big = tier == "thorough"
    for n, e, mb in ((130, 4, 0), (70, 4, 1), (66, 1, 0), (130, 2, -1), (40, 3, 4)) + (((260, 4, 0), (300, 2, -1), (200, 3, 1)) if big else ()):
        yield {"family": "many", "err": e, "breaks": mb, "n": n}
    for e in range(len(ERRORS)):
        for mb in (-1, 0, 1, 2, 4):
            if mb == -1 and ERRORS[e][1]:
                continue
            for nos in NUMBERS:
                if not big and nos not in ("plain", "gaps") and mb not in (0, 4):
                    continue
                yield {"family": "numbers", "err": e, "breaks": mb, "nos": nos, "n": list(range(2, 8)) if big or mb < 2 else [3, 7]}
    for e in (1, 4) if not big else range(len(ERRORS)):
        for mb in (0, 4):
            if big or mb == 0:
                for first in range(3):
                    yield {"family": "missing", "err": e, "breaks": mb, "first": first}
            for base in range(3):
                yield {"family": "flags", "err": e, "breaks": mb, "base": base, "n": 7 if big else 6}
        for mb in (-1, 0, 1):
            if not (mb == -1 and ERRORS[e][1]):
                yield {"family": "unmapped", "err": e, "breaks": mb}
                yield {"family": "noise", "err": e, "breaks": mb}


def build(nos, err, salt=0):
    """float profiles whose conductivity is off, and the true salinities"""
    profs, true = [], []
    for k, no in enumerate(nos):
        p = pipe.profile(k, levels=LEV, step=4.0)
        # far apart for the mapping scales, but on little ground: topography is slow to read
        p["lat"], p["long"] = pipe.HERE[0] + (p["lat"] - pipe.HERE[0]) / SHRINK, (pipe.HERE[1] + (p["long"] - pipe.HERE[1]) / SHRINK) % 360
        p["no"] = no
        p["date"] = 2006.0 + 0.03 * no
        true.append(p["sal"].copy())
        f = ERRORS[err][0] + ERRORS[err][1] * no
        p["factor"] = f
        c = gsw.C_from_SP(p["sal"], p["ptmp"], 0) / f
        p["sal"] = gsw.SP_from_C(c, p["ptmp"], 0)
        profs.append(p)
    return profs, true


def mapping_errors(j):
    return 0.006 + 0.002 * np.cos(0.9 * j + 0.4 * np.arange(len(LEV))) ** 2


def calibrate(profs, mapped, flags, breaks, series=None, **limits):
    with pipe.world() as w:
        cfg = w.config(**SCALES)
        levels = len(LEV)
        pipe.put_float(cfg, profs, levels)
        pipe.write_mapped(cfg, profs, mapped, [mapping_errors(j) for j in range(len(profs))], levels)
        pipe.put_series(cfg, flags, [p["no"] for p in profs], max_breaks=breaks, **limits)
        pipe.do_fit(cfg)
        return pipe.read(pipe.path(cfg, "cal"))


def judge(c, profs, flags, mapped, exact, err):
    n = len(profs)
    deriv = np.ravel(c["time_deriv"])
    if not np.array_equal(np.isnan(deriv), np.isnan(np.ravel(c["pcond_factor"]))):
        return "changes per profile %s for factors %s" % (deriv, np.ravel(c["pcond_factor"]))
    if not np.size(c["fbreaks"]):
        for f in set(flags) - {0}:
            mine = [j for j in range(n) if flags[j] == f and np.isfinite(deriv[j])]
            for i, j in zip(mine, mine[1:]):
                s = (np.ravel(c["pcond_factor"])[j] - np.ravel(c["pcond_factor"])[i]) / (profs[j]["no"] - profs[i]["no"])
                if abs(deriv[i] - s) > 1e-9 or abs(deriv[j] - s) > 1e-9:
                    return "change per profile %s, %s between profiles %s and %s instead of %s" % (deriv[i], deriv[j], profs[i]["no"], profs[j]["no"], s)
    if np.ravel(c["PROFILE_NO"]).tolist() != [p["no"] for p in profs]:
        return "profiles %s" % np.ravel(c["PROFILE_NO"])
    fac, fer = np.ravel(c["pcond_factor"]), np.ravel(c["pcond_factor_err"])
    if len(fac) != n:
        return "%d factors for %d profiles" % (len(fac), n)
    for j, p in enumerate(profs):
        cond = gsw.C_from_SP(p["sal"], p["ptmp"], 0)
        want = {"cal_COND": fac[j] * cond, "cal_COND_err": fer[j] * cond}
        want["cal_SAL"] = gsw.SP_from_C(want["cal_COND"], p["ptmp"], 0)
        want["cal_SAL_err"] = np.abs(gsw.SP_from_C(want["cal_COND"] + want["cal_COND_err"], p["ptmp"], 0) - want["cal_SAL"])
        for q, v in want.items():
            got = np.asarray(c[q])[:, j]
            if not pipe.same_var(got, v, 1e-9):
                return "%s of profile %s: %s instead of %s" % (q, p["no"], np.round(got, 6)[:6], np.round(v, 6)[:6])
        # the profile by itself, with its own mean ratio
        mean, rms = np.ravel(c["sta_mean"])[j], np.ravel(c["sta_rms"])[j]
        sta = gsw.SP_from_C(mean * cond, p["ptmp"], 0)
        for q, v in (("sta_SAL", sta), ("sta_SAL_err", np.abs(gsw.SP_from_C((mean + rms) * cond, p["ptmp"], 0) - sta))):
            got = np.asarray(c[q])[:, j]
            if not pipe.same_var(got, v, 1e-9):
                return "%s of profile %s: %s instead of %s" % (q, p["no"], np.round(got, 6)[:6], np.round(v, 6)[:6])
        if np.isnan(fac[j]) and np.isfinite(mean):
            return "profile %s is not calibrated, but has a mean ratio %r" % (p["no"], mean)
        if exact and not ERRORS[err][1] and np.isfinite(mean) and not (abs(mean - p["factor"]) < 2e-7 and rms < 2e-7):
            return "mean ratio of profile %s is %.9f +- %.9f instead of %.9f" % (p["no"], mean, rms, p["factor"])
        # is there a series to be fitted?
        same = [i for i in range(n) if flags[i] == flags[j]]
        any_mapped = any(np.isfinite(mapped[i]).any() for i in same)
        if flags[j] == 0 or not any_mapped:
            if not np.isnan([fac[j], fer[j]]).all():
                return "profile %s is not to be used, but has factor %r" % (p["no"], fac[j])
        elif exact and (not ERRORS[err][1] or sum(1 for i in same if np.isfinite(mapped[i]).any()) >= MIN_DRIFT):
            if not abs(fac[j] - p["factor"]) < 2e-7:
                return "factor of profile %s is %.9f instead of %.9f" % (p["no"], fac[j], p["factor"])
        elif np.isnan(fac[j]):
            return "profile %s has no factor" % p["no"]
    return None


def members(case):
    """(label, profiles, mapped salinities, flags, exact)"""
    fam = case["family"]
    if fam == "numbers":
        for n in case["n"]:
            for start in (0, 7 - n):
                profs, true = build(NUMBERS[case["nos"]][start:start + n], case["err"])
                yield "%d from %d" % (n, start), profs, true, [1] * n, True
                yield "%d from %d, flag 3" % (n, start), profs, true, [3] * n, True
    elif fam == "missing":
        # in two profiles, any pair of levels misses salinity, temperature or pressure
        for j in (0, 2):
            for a, b in itertools.combinations(range(0, len(LEV), 2), 2):
                for q in ("sal", "ptmp", "pres")[case["first"]:][:1]:
                    profs, true = build(NUMBERS["plain"], case["err"])
                    profs[j][q][[a, b]] = NAN
                    profs[(j + 2) % 7][q][a] = NAN
                    m = [t.copy() for t in true]
                    for p, t in zip(profs, m):
                        t[~(np.isfinite(p["sal"]) & np.isfinite(p["ptmp"]) & np.isfinite(p["pres"]))] = NAN
                    yield "%s of profile %d levels %d %d" % (q, j, a, b), profs, m, [1] * 7, True
    elif fam == "flags":
        n = case["n"]
        for i, flags in enumerate(itertools.product((0, 1), repeat=n)):
            if i % 3 != case["base"] or sum(flags) in (1,):
                continue
            profs, true = build(NUMBERS["gaps"][:n], case["err"])
            yield "flags %s" % (flags,), profs, true, list(flags), True
    elif fam == "unmapped":
        n = 7
        for un in list(subsets(n, 0, 2)) + list(subsets(n, 5, 7)):
            if len(un) == n - 1:
                continue
            profs, true = build(NUMBERS["plain"][:n], case["err"])
            m = [t * NAN if j in un else t for j, t in enumerate(true)]
            yield "unmapped %s" % (un,), profs, m, [1] * n, True
            if 1 <= len(un) <= n - 2:
                # two series, one of them without any mapped profile
                yield "series unmapped %s" % (un,), profs, m, [2 if j in un else 1 for j in range(n)], True
    elif fam == "many":
        n = case["n"]
        profs, true = build([2 * k + 1 + k // 9 for k in range(n)], case["err"])
        for k in range(0, n, 17):
            profs[k]["sal"][k % 5] = true[k][k % 5] = NAN
        yield "many", profs, true, [1] * n, True
        flags = [0 if k % 31 == 4 else 1 + (k * 7 % n) * 12 // n for k in range(n)] if n > 100 else [1 + k // 25 for k in range(n)]
        if case["breaks"] != 4:
            yield "many series", profs, true, flags, True
    elif fam == "noise":
        # the mapped salinities scatter: the relations hold, the factors are what they are
        for s in range(12):
            profs, true = build(NUMBERS["gaps"], case["err"])
            m = [t + 0.004 * np.sin(1 + 1.7 * s + 2.3 * j + 0.8 * np.arange(len(t))) for j, t in enumerate(true)]
            profs[s % 7]["sal"][s] = NAN
            m[s % 7][s] = NAN
            yield "scatter %d" % s, profs, m, [0 if j == (s + 3) % 7 else 1 for j in range(7)], False


def run(case):
    res = Result()
    for label, profs, mapped, flags, exact in members(case):
        c = calibrate(profs, mapped, flags, case["breaks"])
        res.count("evaluations")
        bad = judge(c, profs, flags, mapped, exact, case["err"])
        if bad:
            res.bad("%s (error %s, breaks %d): %s" % (label, ERRORS[case["err"]], case["breaks"], bad))
            return res
        res.nontrivial(case["family"], label, case["err"], case["breaks"], np.isnan(c["cal_SAL"]).tolist())
    return res
