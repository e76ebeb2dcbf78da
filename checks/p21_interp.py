"""P21: reference casts are interpolated linearly to the float theta, at the right depth."""
import itertools

import numpy as np

import oracle
from engine import Result
from util import same, diff

PROP = "P21"
LEVEL = "exploration"
RULE = ("one case = one value alphabet of the first theta levels with all completions; an evaluation is one cast/float level pair, computed alone and in a matrix with all the others; "
        "non-trivial = distinct (pattern of crossings and missing values)")
ASSUMPTIONS = ["of several crossings equally close to the float pressure either may be taken",
               "float levels with missing salinity, temperature or pressure get no value"]

NAN = float("nan")
BATCH = 4


def cases(tier):
    n = 4 if tier == "quick" else 5
    for size in ((40, 301, 60), (130, 60, 70), (300, 20, 5), (1100, 8, 30), (8, 1030, 4), (50, 3, 1100), (257, 17, 65)):
        yield {"large": list(size)}
    for head in itertools.product((None, 1.0, 2.0, 3.0), repeat=2):
        yield {"head": list(head), "n": n, "float": "all"}
    for k in range(2, 4 if tier == "quick" else 5):
        for head in itertools.product((None, 1.0, 2.0, 2.5), repeat=1):
            yield {"head": list(head), "n": k, "float": "missing"}


def large(case, res):
    """as many levels and casts as in reality; inversions, missing values and padding throughout"""
    from pyowc.data.wrangling import interp_climatology
    levels, casts, deep = case["large"]
    i, j = np.arange(levels)[:, None], np.arange(casts)[None, :]
    length = levels - (j * 7) % max(1, levels // 2)
    pres = 5.0 + 1900.0 * i / levels + 3 * np.sin(j)
    theta = 2.0 + 14 * np.exp(-pres / 600.0) + 0.25 * np.sin(0.37 * i + j) + 0.1 * np.sin(3.1 * i * (j + 1))
    sal = 34.0 + 0.1 * theta + 0.03 * np.sin(1.9 * i + 0.7 * j)
    theta = np.where((i * 5 + j * 3) % 29 == 0, NAN, theta)
    sal = np.where((i * 3 + j * 5) % 37 == 0, NAN, sal)
    for a in (pres, theta, sal):
        a[i + 0 * j >= length] = NAN
    k = np.arange(deep)
    fp = 2.0 + 2000.0 * k / deep
    fth = 2.0 + 14 * np.exp(-fp / 600.0) + 0.05 * np.sin(k)
    fs = np.where(k % 23 == 5, NAN, 34.0 + 0 * fp)
    got_s, got_p = interp_climatology(sal.copy(), theta.copy(), pres.copy(), fs.copy(), fth.copy(), fp.copy())
    if got_s.shape != (deep, casts) or got_p.shape != (deep, casts):
        res.bad("shape %s for %d levels and %d casts" % (got_s.shape, deep, casts))
        return
    for c in range(casts):
        for f in range(deep):
            want = [] if np.isnan(fs[f]) else fast(theta[:, c], sal[:, c], pres[:, c], fth[f], fp[f])
            g = (got_s[f, c], got_p[f, c])
            if not ((np.isnan(g[0]) and np.isnan(g[1])) if not want else any(abs(g[0] - s) < 1e-9 and abs(g[1] - q) < 1e-8 for s, q in want)):
                res.bad("%d levels, %d casts: float level %d of %d in cast %d: %r, acceptable %r" % (levels, casts, f, deep, c, g, want))
                return
        res.nontrivial(levels, casts, c)
    res.count("evaluations", deep * casts)


def fast(theta, sal, pres, th, p):
    """oracle.interp_cast, by array operations"""
    ok = np.isfinite(theta) & np.isfinite(sal) & np.isfinite(pres)
    t, s, q = theta[ok], sal[ok], pres[ok]
    i = np.flatnonzero((t[:-1] != t[1:]) & ((t[:-1] - th) * (t[1:] - th) <= 0))
    if not i.size:
        return []
    f = (th - t[i]) / (t[i + 1] - t[i])
    at, v = q[i] + f * (q[i + 1] - q[i]), s[i] + f * (s[i + 1] - s[i])
    m = np.abs(at - p).min()
    return [(v[k], at[k]) for k in np.flatnonzero(np.abs(at - p) <= m + 1e-9)]


PRES = [10.0, 21.0, 33.0, 47.0, 62.0]
SAL = [30.0, 31.5, 30.25, 33.0, 29.0]
TH = [0.5, 1.0, 1.25, 1.5, 2.0, 2.7, 3.0, 3.5]
FP = [5.0, 16.1, 26.3, 35.7, 45.2, 70.0]


def run(case):
    from pyowc.data.wrangling import interp_climatology
    res = Result()
    if "large" in case:
        large(case, res)
        return res
    n = case["n"]
    rest = n - len(case["head"])
    cols = [[NAN if v is None else v for v in case["head"] + list(t)] for t in itertools.product((None, 1.0, 2.0, 3.0), repeat=rest)]
    theta = np.array(cols, float).T
    m = theta.shape[1]
    for k in range(m):          # missing is also what is not finite
        if k % 3:
            theta[np.isnan(theta[:, k]), k] = np.inf if k % 3 == 1 else -np.inf
    pres = np.tile(np.array(PRES[:n])[:, None], (1, m))
    sal = np.tile(np.array(SAL[:n])[:, None], (1, m)) + 0.01 * np.arange(m)
    if case["float"] == "missing":
        # every pattern of levels missing in salinity or pressure instead of temperature
        masks = list(itertools.product((0, 1, 2, 3), repeat=n))
        theta = np.tile(theta, (1, len(masks)))
        pres = np.tile(pres, (1, len(masks)))
        sal = np.tile(sal, (1, len(masks)))
        for k, mask in enumerate(masks):
            for lev, v in enumerate(mask):
                if v & 1:
                    sal[lev, k * m:(k + 1) * m] = NAN if k % 3 else np.inf
                if v & 2:
                    pres[lev, k * m:(k + 1) * m] = NAN if k % 2 else np.inf
    grid = list(itertools.product(TH, FP)) + [(NAN, 16.1), (2.0, NAN), (np.inf, 16.1), (2.0, -np.inf)]
    fth = np.array([g[0] for g in grid])
    fp = np.array([g[1] for g in grid])
    fs = np.full(len(grid), 34.0)
    fth, fp, fs = np.append(fth, 2.0), np.append(fp, 16.1), np.append(fs, NAN)
    copies = [a.copy() for a in (sal, theta, pres, fs, fth, fp)]
    got_s, got_p = interp_climatology(sal, theta, pres, fs, fth, fp)
    for a, b, name in zip((sal, theta, pres, fs, fth, fp), copies, ("sal", "theta", "pres", "float sal", "float theta", "float pres")):
        if not np.array_equal(a, b, equal_nan=True):
            res.bad("%s was changed" % name)
    if got_s.shape != (len(fth), theta.shape[1]) or got_p.shape != got_s.shape:
        res.bad("shape %s for %d levels and %d casts" % (got_s.shape, len(fth), theta.shape[1]))
        return res
    for c in range(theta.shape[1]):
        if not np.isfinite(sal[:, c] + theta[:, c] + pres[:, c]).any() and (~np.isnan(got_s[:, c])).any():
            res.bad("cast %s without a level has values" % (theta[:, c],))
        kinds = set()
        for f in range(len(fth)):
            if not np.isfinite(fth[f] + fp[f] + fs[f]):
                want = []
            else:
                want = oracle.interp_cast(theta[:, c], sal[:, c], pres[:, c], fth[f], fp[f])
            kinds.add(len(want))
            g = (got_s[f, c], got_p[f, c])
            ok = (np.isnan(g[0]) and np.isnan(g[1])) if not want else any(abs(g[0] - s) < 1e-9 and abs(g[1] - q) < 1e-9 for s, q in want)
            if not ok:
                res.bad("theta %s sal %s pres %s at float theta %r pres %r: %r, acceptable %r" % (
                    theta[:, c].tolist(), sal[:, c].tolist(), pres[:, c].tolist(), fth[f], fp[f], g, want))
                return res
        res.count("evaluations", len(fth))
        res.nontrivial(theta[:, c].tolist(), tuple(np.isfinite(sal[:, c])), tuple(np.isfinite(pres[:, c])), sorted(kinds))
    # each cast alone, and with padding, gives the same
    step = max(1, theta.shape[1] // 64)
    for c in range(0, theta.shape[1], step):
        pad = np.full((2, 1), NAN)
        for lead in (False, True):
            t, s, p = (np.vstack([pad, a[:, [c]]] if lead else [a[:, [c]], pad]) for a in (theta, sal, pres))
            a_s, a_p = interp_climatology(s, t, p, fs, fth, fp)
            if not same(a_s[:, 0], got_s[:, c], 1e-12, 0) or not same(a_p[:, 0], got_p[:, c], 1e-12, 0):
                res.bad("cast %s alone differs from the same cast among others: %s" % (theta[:, c].tolist(), diff(a_s[:, 0], got_s[:, c])))
                return res
            res.count("evaluations", len(fth))
        for f in range(0, len(fth), 7):
            a_s, _ = interp_climatology(sal[:, [c]], theta[:, [c]], pres[:, [c]], fs[[f]], fth[[f]], fp[[f]])
            if not same(a_s[0, 0], got_s[f, c], 1e-12, 0):
                res.bad("float level %r/%r alone differs: %r / %r" % (fth[f], fp[f], a_s[0, 0], got_s[f, c]))
                return res
    return res
