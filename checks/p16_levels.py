"""P16: calibration levels are the most stable usable theta levels within the limits."""
import itertools
import math

import numpy as np

from engine import Result
from util import same, diff

PROP = "P16"
LEVEL = "exploration"
RULE = ("one case = one small float (shape, spacing, pattern of missing, unmapped and inverted levels) with every combination of limits on theta and pressure and share of profiles; "
        "an evaluation is one choice of levels; non-trivial = distinct choice")
ASSUMPTIONS = ["salinity variances and distances to a theta level are all different (no ties)",
               "a level needs at least two profiles for a salinity variance"]
BATCH = 2
NAN = np.nan

def setup(tier):
    import pipe
    pipe.shared_topo()


T_LT = [None, 4.1, 9.2]
T_GT = [None, 6.3, 3.2]
P_LT = [None, 410.0, 900.0]
P_GT = [None, 310.0, 610.0]
SHARES = [0.0, 0.5, 1.0]
CELLS = ["all", "top_unmapped", "none", "no_sal", "gap", "shallow", "deep_nan_t"]
FLOATS = [(n, m, dp, inv) for n, m in ((2, 6), (3, 14), (4, 9), (1, 8), (6, 30)) for dp in (7.0, 55.0, 120.0, 0.4) for inv in (0, 1)]
SMALL = len(FLOATS)
FLOATS += [(40, 70, 28.0, 1), (130, 20, 95.0, 0), (260, 12, 120.0, 1), (5, 300, 6.5, 1), (3, 1050, 1.9, 0), (70, 130, 15.0, 0)]      # the size of real ones


USED = [1, 2, 4, 5, 8, 9, 10, 11, 16, 17, 18]


def cases(tier):
    for i in USED if tier == "quick" else range(SMALL):
        for shift in range(3 if tier == "quick" else 8):
            if FLOATS[i][0] > 1:
                yield {"float": i, "cells": [CELLS[(shift * (k + 1) + k * (shift > 0)) % len(CELLS)] for k in range(FLOATS[i][0])], "limits": "some", "used": shift}
    for i in range(SMALL, len(FLOATS)):
        for shift in range(2 if tier == "quick" else 6):
            yield {"float": i, "cells": [CELLS[(3 * shift + k * k) % len(CELLS)] if k % 3 else "all" for k in range(FLOATS[i][0])], "limits": "some"}
    for i in range(SMALL):
        for shift in range(3 if tier == "quick" else 8):
            yield {"float": i, "cells": [CELLS[(shift * (k + 1) + k * (shift > 0)) % len(CELLS)] for k in range(FLOATS[i][0])], "limits": "all" if tier != "quick" or shift < 2 else "some"}
    for combo in itertools.product(range(len(CELLS)), repeat=3):
        yield {"float": 4 + 1, "n": 3, "cells": [CELLS[c] for c in combo], "limits": "some"}
    if tier == "thorough":
        for combo in itertools.product(range(len(CELLS)), repeat=3):
            yield {"float": 2, "n": 3, "cells": [CELLS[c] for c in combo], "limits": "all"}


def build(case):
    n, m, dp, inv = FLOATS[case["float"]]
    n = case.get("n", n)
    sal, ptmp, pres, la = (np.full((m, n), NAN) for _ in range(4))
    rng = np.random.RandomState(41 + case["float"])
    for k in range(n):
        p = 12.0 + dp * np.arange(m) + 0.13 * dp * rng.rand(m) + 0.21 * dp * k
        t = 2.0 + 13.0 * np.exp(-p / (0.4 * dp * m)) + 0.05 * rng.rand(m) + 0.07 * k
        if inv:
            t[m // 2] += 0.9
            t[-2] -= 0.6
        s = 34.0 + 0.1 * t + 0.02 * rng.rand(m) * (1 + 3 * np.arange(m) / m)
        pres[:, k], ptmp[:, k], sal[:, k] = p, t, s
        mapped = np.ones(m, bool)
        c = case["cells"][k]
        if c == "top_unmapped":
            mapped[:m // 3] = False
        elif c == "none":
            mapped[:] = False
        elif c == "no_sal":
            sal[1::3, k] = NAN
            mapped[1::3] = False
        elif c == "gap":
            mapped[m // 2:m // 2 + 2] = False
        elif c == "shallow":
            pres[m // 2:, k] = ptmp[m // 2:, k] = sal[m // 2:, k] = NAN
            mapped[m // 2:] = False
        elif c == "deep_nan_t":
            ptmp[-2:, k] = NAN
            mapped[-2:] = False
        la[mapped, k] = ptmp[mapped, k]
    return sal, ptmp, pres, la


def usable(v, lt, gt):
    if lt is not None and gt is not None:
        return not (lt < v < gt) if lt < gt else gt <= v <= lt
    if lt is not None:
        return v <= lt
    if gt is not None:
        return v >= gt
    return True


def expect(sal, ptmp, pres, la, tlt, tgt, plt, pgt, share):
    m, n = pres.shape
    # usable levels per profile: (row, pres, theta, sal)
    prof = []
    for k in range(n):
        rows = {}
        for i in range(m):
            if math.isnan(la[i, k]):
                continue
            if not math.isnan(ptmp[i, k]) and not usable(ptmp[i, k], tlt, tgt):
                continue
            if not math.isnan(pres[i, k]) and not usable(pres[i, k], plt, pgt):
                continue
            rows[i] = (pres[i, k], ptmp[i, k], sal[i, k])
        prof.append(rows)
    th = [v[1] for r in prof for v in r.values() if not math.isnan(v[1])]
    pp = [v[0] for r in prof for v in r.values() if not math.isnan(v[0])]
    none = ([], [], [])
    if not th or not math.ceil(min(th) * 10) / 10 < math.floor(max(th) * 10) / 10:
        return none
    lo, hi = min(pp), max(pp)
    levels = np.arange(lo, hi, 50)
    if len(levels) < 10:
        inc = (hi - lo) / 10
        inc = math.floor(inc) if inc >= 1 else inc if inc > 0 else 1
        levels = np.arange(lo, hi, inc)
    out = []
    counts = []
    for q in levels:
        vals = []
        for rows in prof:
            c = sorted((v[0], v[1]) for v in rows.values() if not math.isnan(v[0]) and not math.isnan(v[1]))
            if c and c[0][0] < q < c[-1][0]:
                j = max(i for i in range(len(c)) if c[i][0] <= q)
                vals.append(c[j][1] + (c[j + 1][1] - c[j][1]) * (q - c[j][0]) / (c[j + 1][0] - c[j][0]))
        if not vals:
            out.append((q, NAN, [None] * n, []))
            counts.append(0)
            continue
        t = sum(vals) / len(vals)
        idx, ss = [], []
        for rows in prof:
            tt = {i: v[1] for i, v in rows.items() if not math.isnan(v[1])}
            if not tt or not min(tt.values()) < t < max(tt.values()):
                idx.append(None)
                continue
            near = min(sorted(tt), key=lambda i: abs(tt[i] - t))
            idx.append(near)
            other = [i for i in (near - 1, near + 1) if i in tt and (tt[near] - t) * (tt[near] - tt[i]) > 0]
            s = rows[near][2]
            if other:
                o = min(other, key=lambda i: abs(tt[near] - tt[i]))
                if not math.isnan(s) and not math.isnan(rows[o][2]):
                    s = s + (rows[o][2] - s) * (t - tt[near]) / (tt[o] - tt[near])
            if not math.isnan(s):
                ss.append(s)
        out.append((q, t, idx, ss))
        counts.append(len(ss))
    top = max(counts)
    cand = []
    for (q, t, idx, ss), c in zip(out, counts):
        if top == 0 or c / top < share or c < 2:
            continue
        mean = sum(ss) / c
        cand.append((sum((s - mean) ** 2 for s in ss) / (c - 1), q, t, idx))
    cand.sort(key=lambda v: v[0])
    gaps = [b[0] - a[0] for a, b in zip(cand, cand[1:])]
    return [c[2] for c in cand[:10]], [c[1] for c in cand[:10]], [c[3] for c in cand[:10]], min(gaps, default=1), [o[1] for o in out]


def at_limits(sal, ptmp, pres, la, deep):
    """limits that are exactly values of the data"""
    k = pres.shape[1] // 2
    ok = np.flatnonzero(np.isfinite(pres[:, k]) & np.isfinite(ptmp[:, k]))
    if len(ok) < 4:
        return []
    a, b = ok[len(ok) // 4], ok[(3 * len(ok)) // 4]
    p, q, t, u = (float(v) for v in (pres[a, k], pres[b, k], ptmp[b, k], ptmp[a, k]))
    t, u = min(t, u), max(t, u)
    out = [(None, None, q, p), (None, None, p, q), (u, t, None, None), (t, u, None, None), (None, None, q, None), (None, None, None, p), (u, None, None, None), (None, t, None, None)]
    return [v + (s,) for v in out for s in (SHARES if deep else (0.0,))]


def used(case, data, combos, res):
    """the correction is that of the observations at these levels: a common one is their weighted mean"""
    import gsw
    import pipe
    sal, ptmp, pres, la = data
    m, n = pres.shape
    i, j = np.arange(m)[:, None], np.arange(n)[None, :]
    mapped = np.where(np.isfinite(la), sal + 0.01 + 0.004 * np.sin(1.7 * i + 2.3 * j), NAN)
    error = 0.006 + 0.004 * np.cos(0.9 * i + 1.1 * j) ** 2
    profs = [dict(pipe.profile(k, step=0.05), pres=pres[:, k], ptmp=ptmp[:, k], sal=sal[:, k], temp=ptmp[:, k]) for k in range(n)]
    flags = [1 if k % 4 != case["used"] or n < 4 else 0 for k in range(n)]
    take = [k for k in range(n) if flags[k]]
    with pipe.world() as w:
        cfg = w.config()
        pipe.put_float(cfg, profs, m)
        pipe.write_mapped(cfg, profs, list(mapped.T), list(error.T), m)
        for tlt, tgt, plt, pgt, share in combos:
            want = expect(*(v[:, take] for v in data), tlt, tgt, plt, pgt, share)
            if len(want) > 3 and want[3] < 1e-13:
                continue
            y, weight = [], []
            for row in want[2]:
                for k, at in zip(take, row):
                    if at is not None:
                        c = lambda s: gsw.C_from_SP(s, ptmp[at, k], 0)
                        own, theirs = c(sal[at, k]), c(mapped[at, k])
                        y.append(theirs / own)
                        weight.append(1 / (100 * (c(mapped[at, k] + error[at, k] / 100) - theirs) / own) ** 2)
            ok = np.isfinite(y)
            y, weight = np.array(y)[ok], np.array(weight)[ok]
            value = np.sum(y * weight) / np.sum(weight) if len(y) else NAN
            limits = {q: np.array([[v]]) for q, v in (("use_theta_lt", tlt), ("use_theta_gt", tgt), ("use_pres_lt", plt), ("use_pres_gt", pgt)) if v is not None}
            pipe.put_series(cfg, flags, [p["no"] for p in profs], max_breaks=-1, use_percent_gt=share, **limits)
            pipe.do_fit(cfg)
            got = np.ravel(pipe.read(pipe.path(cfg, "cal"))["pcond_factor"])
            res.count("evaluations")
            should = np.where(np.array(flags) == 1, value, NAN)
            if not same(got, should, 1e-9):
                res.bad("cells %s, flags %s, theta lt %s gt %s, pressure lt %s gt %s, share %s: correction %s instead of %s of %d observations" % (
                    case["cells"], flags, tlt, tgt, plt, pgt, share, got, should, len(y)))
                return
            res.nontrivial("used", case["float"], value)


def run(case):
    from pyowc.core.finders import find_10thetas
    res = Result()
    data = build(case)
    n = data[0].shape[1]
    if case["limits"] == "all":
        combos = itertools.product(T_LT, T_GT, P_LT, P_GT, SHARES)
    else:
        combos = [(None, None, None, None, s) for s in SHARES] + [(9.2, 3.2, None, None, .5), (4.1, 6.3, None, None, .5), (None, None, 410., 310., .5),
                                                                  (None, None, 410., 610., 0.), (9.2, None, None, 310., .5)]
    combos = list(combos) + at_limits(*data, case["limits"] == "all")
    if "used" in case:
        used(case, data, combos, res)
        return res
    wrap = lambda v: np.array([[v]]) if v is not None else np.zeros((0, 0))
    for tlt, tgt, plt, pgt, share in combos:
        want = expect(*data, tlt, tgt, plt, pgt, share)
        if len(want) > 3 and want[3] < 1e-13:
            continue
        res.count("evaluations")
        a = [v.copy() for v in data]
        t, p, index, _, _ = find_10thetas(a[0], a[1], a[2], a[3], wrap(tlt), wrap(tgt), wrap(plt), wrap(pgt), share)
        t, p = np.asarray(t, float).ravel(), np.asarray(p, float).ravel()
        index = np.asarray(index, float)
        k = len(want[0])
        tag = "cells %s, theta lt %s gt %s, pressure lt %s gt %s, share %s" % (case["cells"], tlt, tgt, plt, pgt, share)
        if index.shape != (10, n) or len(t) != 10 or len(p) != 10:
            res.bad("%s: shapes %s %s" % (tag, t.shape, index.shape))
            break
        wi = np.full((10, n), NAN)
        for i, row in enumerate(want[2]):
            wi[i] = [NAN if v is None else v for v in row]
        wt, wp = np.full(10, NAN), np.full(10, NAN)
        wt[:k], wp[:k] = want[0], want[1]
        if not (same(t, wt, 1e-8) and same(p, wp, 1e-8)):
            res.bad("%s: theta levels %s" % (tag, diff(t, wt)))
        elif not same(index, wi, 0, 0):
            res.bad("%s: observations %s" % (tag, diff(index, wi)))
        if res.problems:
            break
        res.nontrivial(case["float"], np.nan_to_num(index, nan=-1).tolist())
    return res
