"""P23: south of 30 S the subantarctic front criterion keeps only casts on the side of the float."""
import math
import os

import gsw
import numpy as np
from scipy.io import savemat

import model
import pipe
import world as W
from engine import Result
from util import same, diff, subsets

PROP = "P23"
LEVEL = "exploration"
RULE = ("one case = one float profile (latitude, temperature class, envelope class, depth range, missing or duplicated levels) with every subset of the cast kinds up to a size and all of them; "
        "an evaluation is one selection; non-trivial = distinct (side of the float, side of the casts kept)")
ASSUMPTIONS = ["typical profiles are monotonic in their interpolation variable"]

DIRS = []
DEPTH = np.arange(0, 2001, 50.0)


def tables(wide):
    d = DEPTH
    t = {"T_meanN": 2.3 + 6 * np.exp(-d / 260), "T_stdN": 0.35 + 0.1 * np.exp(-d / 900), "S_meanN": 34.1 + 0.6 * d / 2000, "S_stdN": 0.06 + 0 * d,
         "S_meanS": 33.7 + 0.95 * (1 - np.exp(-d / 700)), "S_stdS": 0.03 + 0 * d, "T_meanS": 3.6 - 0.0008 * d, "T_stdS": 0.3 + 0 * d}
    if wide:
        t["T_stdS"] = 3.0 + 0 * d
        t["S_stdN"] = 0.9 + 0 * d
    return dict(t, Deph=d)


def setup(tier):
    pipe.shared_topo()
    for k in range(2):
        p = os.path.join(os.environ["OWC_SCRATCH"], "saf%d" % k)
        os.makedirs(p)
        savemat(p + "/saf.mat", {n: np.asarray(v)[None, :] for n, v in tables(k).items()})
        DIRS.append(p)


LATS = [10.0, -29.99, -30.0, -30.01, -55.0]
T300 = [1.0, 2.97, 3.03, 4.0, 4.97, 5.03, 9.0]


def profile(kind):
    """pres, temperature, salinity of a float"""
    p = np.arange(7.0, 1800, 46.0)
    t = tables(0)
    name, _, arg = kind.partition(":")
    if name == "t300":
        return p, float(arg) + (300 - p) * 0.002, 34.3 + 0 * p
    ip = lambda k: np.interp(p, DEPTH, t[k])
    if name == "north":
        tt, ss = ip("T_meanN"), ip("S_meanN")
    elif name == "south":
        tt, ss = ip("T_meanS"), ip("S_meanS")
    else:
        tt, ss = 4.0 + (300 - p) * 0.0015, 34.0 + 0 * p + 0.0003 * p
    if arg == "off_in":         # one level out of the envelope, inside 150..1700
        k = int(np.argmin(np.abs(p - 800)))
        tt[k] += 1.5
        ss[k] += 0.4
    elif arg == "off_top":
        tt[:3] += 2.0
        ss[:3] += 0.5
    elif arg == "off_bottom":
        tt[p > 1710] -= 1.0
        ss[p > 1710] += 0.4
    elif arg.startswith("at"):          # one level off, next to the limits of the envelope test
        k = int(np.argmin(np.abs(p - float(arg[2:]))))
        tt[k] += 1.5
        ss[k] += 0.4
    elif arg.startswith("ends"):        # first and last level inside the envelope depths, one of them off
        keep = (p > 200) & (p < 1100)
        p, tt, ss = p[keep], tt[keep], ss[keep]
        k = {"0": 0, "1": -1}.get(arg[4:])
        if k is not None:
            p = p.copy()
            p[k] += 9 if k else -9
            tt[k] += 1.5
            ss[k] += 0.4
    elif arg.startswith("edge"):        # the level at 200 dbar is where the table of the envelope ends, and off
        k = int(np.argmin(np.abs(p - 191)))
        p = p.copy()
        p[k] = 200.0
        tt[k], ss[k] = (float(arg[4:]), ss[k] + 0.4) if name == "north" else (tt[k] + 1.5, float(arg[4:]))
    elif arg == "short":
        keep = p < 720
        p, tt, ss = p[keep], tt[keep], ss[keep]
    elif arg == "deep":
        keep = p > 310
        p, tt, ss = p[keep], tt[keep], ss[keep]
    elif arg == "shallow":
        keep = p < 290
        p, tt, ss = p[keep], tt[keep], ss[keep]
    elif arg == "two":
        p, tt, ss = p[[2, 12]], tt[[2, 12]], ss[[2, 12]]
    elif arg == "three":
        p, tt, ss = p[[2, 8, 20]], tt[[2, 8, 20]], ss[[2, 8, 20]]
    elif arg == "dup":
        p = p.copy()
        p[20] = p[19]
    elif arg == "nan_t":
        tt[[4, 5, 15]] = np.nan
    elif arg == "nan_p":
        p = p.copy()
        p[[3, 9]] = np.nan
    elif arg == "nan_s":
        ss[[8, 9, 18]] = np.nan
    elif arg == "all_nan":
        tt[:] = np.nan
    elif arg == "dup_nan":      # the duplicate is a missing level
        p = p.copy()
        p[20] = p[19]
        tt[20] = np.nan
    return p, tt, ss


FLOATS = ["t300:%g" % t for t in T300] + [n + ":" + a for n in ("north", "south", "mid") for a in (
    "", "off_in", "off_top", "off_bottom", "short", "deep", "shallow", "two", "three", "dup", "nan_t", "nan_p", "nan_s", "all_nan", "dup_nan", "at145", "at191", "at1663", "at1709", "ends", "ends0", "ends1")] + [
    "north:edge%g" % t for t in (5.7, 6.0, 6.3, 6.6, 6.9, 7.2, 7.6)] + ["south:edge%g" % v for v in (33.72, 33.75, 33.78, 33.8, 33.82, 33.84, 33.87)]

NAN = np.nan
N = 14


def casts():
    """pres, in situ temperature, salinity columns of all kinds of casts, their side (1 north, -1 south, 0 other)"""
    out = []
    base = np.array([20.0, 80, 150, 220, 280, 340, 420, 600, 900, 1300] + [NAN] * 4)
    for t in T300:
        out.append((base, t + (300 - base) * 0.003, 1 if t > 5 else -1 if t < 3 else 0))
    cold, warm = 1.5 + (300 - base) * 0.001, 8.0 + (300 - base) * 0.004
    shallow = np.where(base < 290, base, NAN)
    deep = np.where(base > 310, base, NAN)
    out.append((shallow, warm, 0))
    out.append((deep, cold, 0))
    out.append((np.roll(deep, -5), np.roll(cold, -5), 0))
    few = np.where((base == 280) | (base == 340), base, NAN)
    out.append((few, warm, 0))
    three = np.where((base == 280) | (base == 340) | (base == 900), base, NAN)
    out.append((three, warm, 1))
    dup = base.copy()
    dup[8] = dup[7]
    tw = warm.copy()
    tw[8] = tw[7]
    out.append((dup, tw, 1))
    dupc = base.copy()
    dupc[1] = dupc[0]
    tc = cold.copy()
    tc[1] = tc[0]
    out.append((dupc, tc, -1))
    gap = base.copy()
    gap[3:5] = NAN
    out.append((gap, warm, 1))
    mis = cold.copy()
    mis[[0, 6]] = NAN
    out.append((base, mis, -1))
    full = np.array([20.0, 80, 150, 220, 280, 340, 420, 600, 900, 1300, 1400, 1500, 1600, 1700])
    out.append((full, 7.0 + (300 - full) * 0.002, 1))
    out.append((base * NAN, base * NAN, 0))
    return out


def extents():
    """casts that begin or end next to the pressures a criterion could look at"""
    out = []
    for top, bottom in [(5, b) for b in (290, 299, 301, 340, 420, 490, 510, 690, 710, 990, 1010, 1490, 1510)] + [(a, 1200) for a in (15, 45, 55, 95, 105, 145, 155, 195, 205, 245, 255, 299, 301)]:
        for t in (1.5, 8.0):
            p = np.linspace(top, bottom, 6)
            p = np.concatenate([np.sort(np.append(p, [k for k in (280, 320) if top < k < bottom])), [NAN] * N])[:N]
            out.append((p, t + (300 - p) * 0.001, (1 if t > 5 else -1) if top < 300 < bottom else 0))
    return out


def cases(tier):
    for lat in range(len(LATS)):
        for f in FLOATS:
            for d in range(2):
                yield {"lat": LATS[lat], "float": f, "tables": d, "deep": tier == "thorough"}
    for lat in (-45.3, -31.2, -28.0):
        for side in (1, 0, -1):
            for saf in (0, 1):
                for north in range(9):
                    yield {"pipe": side, "lat": lat, "saf": saf, "north": north, "south": [0, 3, 5, 6, 7, 8] if tier == "quick" else list(range(9)),
                           "mid": [0, 2] if tier == "quick" else [0, 1, 2, 6], "deep": False}


def lin(x, xp, fp):
    if not (xp[0] <= x <= xp[-1]):
        return math.nan
    for j in range(len(xp) - 1):
        if xp[j] <= x <= xp[j + 1]:
            return fp[j] + (fp[j + 1] - fp[j]) * (x - xp[j]) / (xp[j + 1] - xp[j])


def side_of_float(p, t, s, tab):
    ok = ~np.isnan(p) & ~np.isnan(t)
    p, t, s = p[ok], t[ok], s[ok]
    if len(p) < 3 or np.any(np.diff(p) == 0) or not p.min() < 300 < p.max():
        return 0
    t300 = lin(300.0, p, t)
    if t300 > 5:
        return 1
    if t300 < 3:
        return -1
    k = slice(2, None)
    tn, tdn, sn, sdn = (tab[n][k] for n in ("T_meanN", "T_stdN", "S_meanN", "S_stdN"))
    ts, tds, ss, sds = (tab[n][k] for n in ("T_meanS", "T_stdS", "S_meanS", "S_stdS"))
    south, north, seen = True, True, False
    for d in DEPTH[k]:
        if not 150 < d < 1700:
            continue
        sal, tmp = lin(d, p, s), lin(d, p, t)
        if math.isnan(sal) or math.isnan(tmp):
            continue
        ninf, nsup = lin(tmp, (tn - tdn)[::-1], (sn - sdn)[::-1]), lin(tmp, (tn + tdn)[::-1], (sn + sdn)[::-1])
        sinf, ssup = lin(sal, ss - sds, ts - tds), lin(sal, ss + sds, ts + tds)
        if any(math.isnan(v) for v in (ninf, nsup, sinf, ssup)):
            continue
        seen = True
        south &= sinf < tmp < ssup
        north &= ninf < sal < nsup
    if not seen or south == north:
        return 0
    return -1 if south else 1


WATER = {1: (2.6, 8.5), 0: (2.0, 3.2), -1: (1.4, 1.5)}      # deep temperature, surface excess: 8.1, 4.1, 2.4 degrees at 300 dbar


def water(c, side, i=0):
    d, a = WATER[side]
    c["ptmp"] = d + a * np.exp(-np.asarray(c["pres"]) / 700.0) + pipe.wobble(i, 0.05)
    c["sal"] = 34.0 + 0.1 * c["ptmp"] + 0.1 * side + pipe.wobble(2 * i, 0.03)
    return c


def run_pipe(case):
    res = Result()
    center = (case["lat"], 70.4)
    for south in case["south"]:
        for mid in case["mid"]:
            kinds = [1] * case["north"] + [-1] * south + [0] * mid
            kinds = kinds[::2] + kinds[1::2]        # not in order
            casts = [water(pipe.hist_cast(i, center, spread=1.2), k, i) for i, k in enumerate(kinds)]
            ref = {}
            for i, c in enumerate(casts):
                ref.setdefault((pipe.KINDS[i % 3], W.box_number(c["lat"], c["long"])), []).append(c)
            p = pipe.profile(2, center)
            water(p, case["pipe"])
            p["temp"] = p["ptmp"] + 1e-4 * p["pres"]
            with pipe.world(ref) as w:
                cfg = w.config(MAP_USE_SAF=case["saf"], MAP_P_DELTA=3000)
                w.add_float("3901234", [p])
                pipe.do_map(cfg)
                m = pipe.mapped(cfg)
            side = side_of_float(p["pres"], p["temp"], p["sal"], tables(0)) if case["lat"] < -30 and case["saf"] else 0
            kept = [c for c, k in zip(casts, kinds) if k == side] if side else casts
            if len(kept) <= 5:
                kept = casts
            res.count("evaluations")
            try:
                bad = model.compare(pipe.columns(m)[2], model.map_profile(p, kept, cfg), p, cfg)
            except model.Ambiguous:
                res.count("ambiguous")
                continue
            if bad:
                res.bad("float on side %d at %g, criterion %d, %d casts north, %d south, %d between: %s" % (side, case["lat"], case["saf"], case["north"], south, mid, bad))
                return res
            res.nontrivial(case["pipe"], side, case["saf"], case["north"], south, mid)
    return res


def run(case):
    if "pipe" in case:
        return run_pipe(case)
    from pyowc.data.fetchers import frontal_constraint_saf
    res = Result()
    p, t, s = profile(case["float"])
    tab = tables(case["tables"])
    some = len(casts())
    all_casts = casts() + extents()
    n = len(all_casts)
    side = side_of_float(p, t, s, tab) if case["lat"] < -30 else 0
    cfg = {"CONFIG_DIRECTORY": DIRS[case["tables"]], "CONFIG_SAF": "saf.mat"}
    lat0 = np.linspace(-58, -31, n)
    lon0 = np.linspace(10, 350, n)
    pres0 = np.array([c[0] for c in all_casts]).T
    temp0 = np.array([c[1] for c in all_casts]).T
    sal0 = np.where(np.isnan(temp0), np.nan, 34.2 + 0.01 * np.arange(n)[None, :] + 0 * pres0)
    sa = gsw.SA_from_SP(sal0, pres0, lon0[None, :], lat0[None, :])
    ptmp0 = gsw.pt0_from_t(sa, temp0, pres0)
    picks = [(i,) for i in range(some, n) for _ in range(2)] + [v for v in subsets(some, 1, 1) for _ in range(2)] + list(subsets(some, 2, 3 if case["deep"] else 2 if case["tables"] == 0 else 1)) + [tuple(range(n)), tuple(range(n))[::-1], tuple(range(some, n)), tuple(range(0, n, 2)), tuple(range(1, n, 2))]
    if case["tables"] == 0:         # as many casts and levels as there really are
        picks += [tuple((7 * i + i // n) % n for i in range(c)) for c in (131, 263, 520, 1040)]
    for number, pick in enumerate(picks):
        pick = list(pick)
        if number % 2:              # no more rows than the longest of the casts
            rows = 1 + max([k for k in range(N) if not np.all(np.isnan(sal0[k, pick]))], default=0)
            pad = lambda v: v[:rows]
        elif len(pick) == 520:
            pad = lambda v: np.vstack([v, np.full((300, v.shape[1]), NAN)])
        else:
            pad = lambda v: v
        g = {"grid_sal": pad(sal0[:, pick]).copy(), "grid_ptmp": pad(ptmp0[:, pick]).copy(), "grid_pres": pad(pres0[:, pick]).copy(), "grid_lat": lat0[pick],
             "grid_long": lon0[pick], "grid_dates": 2000.0 + np.arange(n)[pick], "grid_z": 3000.0 + np.arange(n)[pick]}
        before = {k: v.copy() for k, v in g.items()}
        f = {"float_lat": case["lat"], "float_pres": p.copy(), "float_tmp": t.copy(), "float_sal": s.copy()}
        got = frontal_constraint_saf(cfg, g, f)
        res.count("evaluations")
        keep = [i for i in range(len(pick)) if side == 0 or all_casts[pick[i]][2] == side]
        for k in before:
            want = before[k][..., keep]
            if not same(got[k], want, 0, 0):
                res.bad("float %s at %r (side %d), casts %s (sides %s): %s %s" % (
                    case["float"], case["lat"], side, pick, [all_casts[i][2] for i in pick], k, diff(got[k], want)))
                return res
            if not np.array_equal(g[k], before[k], equal_nan=True):
                res.bad("%s of the casts was changed" % k)
                return res
        if not (np.array_equal(f["float_pres"], p, equal_nan=True) and np.array_equal(f["float_sal"], s, equal_nan=True) and np.array_equal(f["float_tmp"], t, equal_nan=True)):
            res.bad("the float data were changed")
        res.nontrivial(side, [all_casts[pick[i]][2] for i in keep], len(pick))
    return res
