"""P14: calibration series are calibrated independently of each other."""
import itertools
import os

import gsw
import numpy as np

import pipe
from engine import Result
from util import subsets
import p13_factor as p13

PROP = "P14"
LEVEL = "exploration"
TECHNIQUE = "exhaustive exploration of the ways to split the profiles of a float into series, with flag values, maximum numbers of breaks and prescribed breaks, on the real calibration, compared with each series calibrated alone"
NOTE = "All labelled partitions of bounded floats into up to three series (and unused profiles); relation between executions."
RULE = ("one case = one float with a set of flag values and settings of breaks, and the flags of its first two profiles, with all flags of the others; an evaluation is one calibration; "
        "non-trivial = distinct (flags, settings)")
ASSUMPTIONS = ["Monte-Carlo error estimates are left out (errors are compared where no break was found)", "profiles come in the order of their numbers"]
BATCH = 1
NAN = np.nan
NAMES = ["cal_SAL", "pcond_factor", "cal_COND", "time_deriv", "sta_mean", "sta_SAL"]
ERRORS = ["pcond_factor_err", "cal_SAL_err", "cal_COND_err", "time_deriv_err"]
VALUES = [(1, 2), (7, 3), (1, 2, 5), (0.5, -1)]
MANY = len(VALUES)
VALUES += [(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12)]


def setup(tier):
    pipe.shared_topo()


def cases(tier):
    big = tier == "thorough"
    for mb in ([0], [-1], [0, -1] * 6, [-1, 0, 0] * 4):
        for turn in range(0, 5 if not big else 12):
            yield {"values": MANY, "max": mb, "first": [], "n": 44, "breaks": None, "thin": 1, "turn": turn}
    for v in range(MANY):
        for mb in ([0], [-1], [4], [2, 0], [0, 1], [-1, 4], [0, 1, -1]):
            if len(mb) > 1 and len(mb) != len(VALUES[v]):
                continue
            if not big and v == 3 and mb == [4]:
                continue
            labels = (0,) + VALUES[v]
            n = 7 if len(labels) == 3 and mb != [4] else 6
            for first in itertools.product(labels, repeat=2):
                if not big and (v == 2 or mb in ([4], [-1, 4])) and sum(labels.index(x) for x in first) % 3:
                    continue
                yield {"values": v, "max": mb, "first": list(first), "n": n, "breaks": None, "thin": 1 if big else 11}
    for v in range(MANY):
        k = len(VALUES[v])
        for br, mb in (([[3.2], [12.0], [7.0]], 1), ([[9.5, NAN], [4.5, 25.0], [10.5, NAN]], [1, 2, 1])):
            for first in itertools.product(VALUES[v], repeat=2):
                if mb == 1:
                    yield {"values": v, "max": [1], "breaks": br[:k], "first": list(first), "n": 7, "thin": 1 if big else 7}
                elif k == 2:        # long enough for a series with two breaks
                    for m in (mb[:2], mb[1:]):
                        yield {"values": v, "max": m, "breaks": [b[:i] + [NAN] * (2 - i) for b, i in zip(([9.5, 20.0], [8.0, 24.0]), m)], "first": list(first), "n": 10, "thin": 1 if big else 5}


def float_data(n):
    profs, true = p13.build(p13.NUMBERS["gaps"][:n] if n < 8 else [4 * k + 1 + k % 3 for k in range(n)], 1)
    for j, p in enumerate(profs):
        # each profile has its own deviation
        p["sal"] = p["sal"] + 0.01 * np.sin(2.2 * j) + 0.003 * np.cos(1.1 * j + np.arange(len(p["sal"])))
        # and they are not evenly spaced
        p["lat"] += 1.3 / p13.SHRINK * np.sin(1.9 * j)
        p["long"] += 2.1 / p13.SHRINK * np.cos(2.3 * j)
    m = [t.copy() for t in true]
    m[2][:] = NAN               # not mapped
    m[4][3] = NAN
    return profs, m


def fit(profs, m, flags, mb, breaks, js=None):
    with pipe.world() as w:
        cfg = w.config(**p13.SCALES)
        levels = len(p13.LEV)
        pipe.put_float(cfg, profs, levels)
        pipe.write_mapped(cfg, profs, m, [p13.mapping_errors(j) for j in js or range(len(profs))], levels)
        pipe.put_series(cfg, flags, [p["no"] for p in profs], max_breaks=mb, breaks=breaks or ())
        pipe.do_fit(cfg)
        return pipe.read(pipe.path(cfg, "cal"))


def run(case):
    res = Result()
    n = case["n"]
    profs, m = float_data(n)
    values = VALUES[case["values"]]
    order = sorted(values)
    solo = {}

    def alone(members, k, br):
        """the series of these profiles, all others not used; k = its maximum number of breaks"""
        key = (members, k, str(br))
        if key not in solo:
            solo[key] = s = fit(profs, m, [1 if j in members else 0 for j in range(n)], [k], br)
            apart = fit([profs[j] for j in members], [m[j] for j in members], [1] * len(members), [k], br, members)
            for q in NAMES + ERRORS * (not np.size(s["fbreaks"]) and not br):
                u, w = np.asarray(s[q])[:, list(members)], np.asarray(apart[q])
                if not pipe.same_var(u, w, 1e-9):
                    res.bad("%s of profiles %s, the others not used: %s instead of %s as without the others" % (q, members, np.ravel(u)[:5], np.ravel(w)[:5]))
        return solo[key]

    labels = (0,) + values if not case["breaks"] else values
    rests = itertools.product(labels, repeat=n - 2)
    if "turn" in case:          # a dozen series: interleaved, in blocks, not in order
        t = case["turn"]
        rests = [[0 if (t + j) % 13 == 0 and t % 2 else labels[1 + [j % 12, j * 12 // n, (j * 5 + t) % 12, (j // 2 + j) % 12, 11 - j % 12][t % 5]] for j in range(n)]]
    for i, rest in enumerate(rests):
        flags = case["first"] + list(rest)
        if sum(labels.index(f) * (3 ** (j % 5)) for j, f in enumerate(flags)) % case["thin"]:
            continue
        used = [v for v in order if v in flags]
        if not used:
            continue
        # a setting per series belongs to the series present
        if (len(case["max"]) > 1 or case["breaks"]) and used != order:
            continue
        if any(sum(1 for j in range(n) if flags[j] == v and np.isfinite(m[j]).any()) == 1 for v in used):
            continue
        mb = case["max"] if len(case["max"]) > 1 else case["max"] * len(used)
        br = case["breaks"]
        usable = True
        if br:
            # prescribed breaks must lie within the series and leave enough profiles
            for v, b in zip(used, br):
                nos = [profs[j]["no"] for j in range(n) if flags[j] == v and np.isfinite(m[j]).any()]
                bb = [x for x in b if np.isfinite(x)]
                edges = [-1e9] + bb + [1e9]
                if any(sum(1 for x in nos if lo < x < hi) < 1 for lo, hi in zip(edges[:-1], edges[1:])) or not nos or not min(nos) < min(bb) or not max(bb) < max(nos) or len(nos) < len(bb) + 2:
                    usable = False
        if not usable:
            continue
        c = fit(profs, m, flags, case["max"], br)
        res.count("evaluations")
        bad = None
        coefs, brks = [], []
        for v, k, b in zip(used, mb, br or [None] * len(used)):
            members = tuple(j for j in range(n) if flags[j] == v)
            b = None if b is None else [[x for x in b if np.isfinite(x)]]
            s = alone(members, k, b)
            fb = np.ravel(s["fbreaks"])
            coefs += np.ravel(s["fcoef"]).tolist()
            brks += fb.tolist()
            names = list(NAMES)
            if not len(fb) and not b and ("turn" not in case or k == -1):      # a trend has Monte-Carlo errors
                names += ERRORS
            for q in names:
                u, w = np.asarray(c[q])[:, list(members)], np.asarray(s[q])[:, list(members)]
                if not pipe.same_var(u, w, 1e-9):
                    bad = "%s of series %s: %s instead of %s" % (q, v, np.ravel(u)[:5], np.ravel(w)[:5])
        for j in range(n):
            if flags[j] == 0 and not (np.isnan(c["pcond_factor"][0, j]) and np.isnan(c["cal_SAL"][:, j]).all()):
                bad = "profile %s is not used but calibrated" % profs[j]["no"]
        if not bad and not np.allclose(np.ravel(c["fcoef"]), coefs, rtol=1e-7, atol=1e-12) if np.size(c["fcoef"]) == len(coefs) else True:
            bad = bad or "coefficients %s instead of %s" % (np.ravel(c["fcoef"]), coefs)
        if not bad and (np.size(c["fbreaks"]) != len(brks) or not np.allclose(np.ravel(c["fbreaks"]), brks, rtol=1e-7)):
            bad = "break points %s instead of %s" % (np.ravel(c["fbreaks"]), brks)
        if bad:
            res.bad("flags %s, breaks %s %s: %s" % (flags, case["max"], br, bad))
            return res
        if res.problems:
            return res
        res.nontrivial(flags, case["max"], str(br))
    return res
