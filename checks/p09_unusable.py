"""P09: a profile that cannot be mapped never affects the others."""
import itertools
import os

import numpy as np
from scipy.io import loadmat, savemat

import pipe
import world as W
from engine import Result

PROP = "P09"
LEVEL = "exploration"
TECHNIQUE = "exhaustive exploration of which profiles of a float are unusable and how, mapped and calibrated by the real stages and compared with the source without them"
NOTE = "All assignments of conditions to the profiles of bounded floats; relation between two executions (with and without the unusable profiles)."
RULE = ("one case = the conditions of the first profiles, a setting and a number of breaks, with all conditions of the others; an evaluation is one float mapped (and calibrated) with and without its unusable profiles; "
        "non-trivial = distinct (conditions, setting)")
ASSUMPTIONS = ["Monte-Carlo error estimates (two or more regimes) are left out"]
BATCH = 1
NAN = np.nan
F = "3901234"
BAD = ("nolat", "nolong", "nopos", "nodate", "nopres", "nosal", "noptmp", "notemp", "nothing", "far", "unusable", "few", "shallow")
CONFIGS = [{}, {"MAP_USE_PV": 1, "CONFIG_MAX_CASTS": 10}, {"MAP_USE_SAF": 1}]
UNUSABLE = (41.0, 150.3)
FEW = (-41.0, 220.3)


def setup(tier):
    pipe.shared_topo()


def cases(tier):
    big = tier == "thorough"
    for k in range(len(CONFIGS)):
        for a in BAD:
            yield {"cfg": k, "first": a, "n": 4 if big else 3, "bad": 2, "fit": None, "more": BAD if big else BAD[k::3]}
    for breaks in (-1, 0, 4) if not big else (-1, 0, 1, 2, 4):
        for a in BAD:
            yield {"cfg": 0, "first": a, "n": 6, "bad": 2 if breaks == 0 or big else 1, "fit": breaks, "more": BAD if big else BAD[1::4]}
    for a in BAD:
        yield {"cfg": 0, "first": a, "n": 3, "bad": 3, "fit": 0, "all": 1, "more": BAD[::2] if big else BAD[1::4]}


def reference():
    ref = pipe.reference(18)
    for i in range(8):          # around the float there is data, but it is of no use
        c = pipe.hist_cast(50 + i, UNUSABLE)
        if i % 2:
            c["sal"][:] = NAN
        else:
            c["pres"][:] = NAN
        ref.setdefault((pipe.KINDS[i % 3], W.box_number(c["lat"], c["long"])), []).append(c)
    for i in range(5):
        c = pipe.hist_cast(70 + i, FEW)
        ref.setdefault((pipe.KINDS[i % 3], W.box_number(c["lat"], c["long"])), []).append(c)
    return ref


def spoil(p, how):
    if how in ("nolat", "nopos"):
        p["lat"] = NAN
    if how in ("nolong", "nopos"):
        p["long"] = NAN
    if how == "nodate":
        p["date"] = NAN
    for q, names in (("pres", ("nopres", "nothing")), ("sal", ("nosal", "nothing")), ("ptmp", ("noptmp", "nothing")), ("temp", ("notemp", "noptmp", "nothing"))):
        if how in names:
            p[q][:] = NAN
    if how == "nothing":
        p.update(lat=NAN, long=NAN)
    if how == "notemp":         # the temperature missing altogether
        p["ptmp"][:] = NAN
    if how == "far":
        p.update(lat=63.0, long=181.0)
    if how == "unusable":
        p.update(lat=UNUSABLE[0], long=UNUSABLE[1])
    if how == "few":
        p.update(lat=FEW[0], long=FEW[1])
    if how == "shallow":
        for q in ("pres", "ptmp", "sal", "temp"):
            p[q] = p[q][:2]
    return p


def run(case):
    res = Result()
    ref = reference()
    breaks = case["fit"]
    n = case["n"]
    memo = {}
    levels = len(pipe.LEVELS)

    def process(profs):
        with pipe.world(ref) as w:
            cfg = w.config(**CONFIGS[case["cfg"]])
            w.add_float(F, profs, levels=levels)
            pipe.do_map(cfg, F)
            m = pipe.mapped(cfg, F)
            c = None
            if breaks is not None:
                pipe.do_series(cfg, F)
                p = pipe.path(cfg, "series", F)
                s = pipe.read(p)
                s["max_breaks"] = np.array([[breaks]])
                savemat(p, s)
                pipe.do_fit(cfg, F)
                c = pipe.read(pipe.path(cfg, "cal", F))
            return m, c

    def make(k):
        p = pipe.profile(k, step=0.07)
        # uneven drift
        p["sal"] = p["sal"] + 0.01 * np.sin(1.3 * k)
        return p

    words = []
    for count in range(0, case["bad"]):
        for more in itertools.product(case["more"], repeat=count):
            for at in itertools.combinations(range(n), count + 1):
                words.append((at, (case["first"],) + more))
    if breaks is not None and case["bad"] == 2:
        # two bad ones: only neighbours and ends
        words = [(at, w) for at, w in words if len(at) == 1 or at[1] - at[0] in (1, n - 1)]
    if case.get("all"):
        words = [(at, w) for at, w in words if len(at) == n] + [(tuple(range(n)), (case["first"],) * n)]
    for at, word in words:
        profs = [make(k) for k in range(n)]
        for k, how in zip(at, word):
            profs[k] = spoil(profs[k], how)
        good = tuple(k for k in range(n) if k not in at)
        if good not in memo:
            memo[good] = process([make(k) for k in good]) if good else None
        m, c = process(profs)
        res.count("evaluations")
        bad = pipe.shape_problem(m, list(range(n)), levels)
        cols = pipe.columns(m) if not bad else {}
        for k, how in zip(at, word):
            if bad:
                break
            for q in pipe.PER_LEVEL[:4]:
                if not np.isnan(cols[k][q]).all():
                    bad = "unusable profile %d (%s) has %s" % (k, how, q)
            for q in pipe.SETTINGS:
                if not np.isnan(cols[k][q]):
                    bad = "unusable profile %d (%s) has %s recorded" % (k, how, q)
        if not bad and good:
            bad = pipe.mapped_diff(m, memo[good][0], nos=set(good))
            if not bad and {p for p in pipe.places(m)} != {p for p in pipe.places(memo[good][0])}:
                bad = "reference positions differ"
        if not bad and c is not None:
            bad = check_cal(c, memo[good][1] if good else None, good, at, word, n, breaks)
        if bad:
            res.bad("profiles %s unusable as %s (setting %d, breaks %s): %s" % (list(at), list(word), case["cfg"], breaks, bad))
            return res
        res.nontrivial(at, word, case["cfg"], breaks)
    return res


def check_cal(c, want, good, at, word, n, breaks):
    if c["PROFILE_NO"].ravel().tolist() != list(range(n)):
        return "calibration lists the profiles %s" % c["PROFILE_NO"].ravel()
    names = ["pcond_factor", "cal_SAL", "cal_COND", "time_deriv"]
    if breaks <= 0:
        names += ["pcond_factor_err", "cal_SAL_err", "cal_COND_err", "sta_SAL"]
    for q in names:
        a = np.asarray(c[q])
        for j, k in enumerate(good):
            u, v = a[:, k], np.asarray(want[q])[:, j]
            if not pipe.same_var(u, v, 2e-6):
                return "%s of profile %d: %s instead of %s" % (q, k, u[:6], v[:6])
    for k, how in zip(at, word):
        if how in ("nosal", "nopres", "notemp", "noptmp", "nothing") and not np.isnan(c["pcond_factor"][0, k]):
            return "profile %d (%s) has a conductivity factor" % (k, how)
        if how in ("nosal", "noptmp", "nothing", "notemp") and not np.isnan(c["cal_SAL"][:, k]).all():
            return "profile %d (%s) has calibrated salinities" % (k, how)
    if not good and not np.isnan(c["pcond_factor"]).all():
        return "nothing mapped, but factors %s" % c["pcond_factor"]
    return None
