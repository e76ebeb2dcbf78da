"""P22: objective mapping is the best linear unbiased estimate with its error; variances as defined."""
import itertools

import numpy as np

import oracle
from engine import Result
from util import same, diff, subsets

PROP = "P22"
LEVEL = "exploration"
RULE = ("one case = one set of data positions (all subsets of a lattice of latitudes, longitudes, years and depths up to a size) with one parameter set; "
        "evaluations are mappings (every value pattern and every target) and variance computations (every order); non-trivial = distinct (positions, parameters)")
ASSUMPTIONS = ["covariance plus noise is well conditioned: noise variance above zero unless all positions differ"]

# lat, lon, year, depth
LATTICE = [(-40.0, 100.0, 2000.0, 3000.0), (-40.0, 102.0, 2000.0, 3200.0), (-40.0, 102.0, 2004.0, 3200.0), (-38.5, 100.0, 2011.0, 2500.0),
           (-38.5, 102.0, 1996.0, 4100.0), (0.0, 101.0, 2001.5, 4000.0), (-41.0, 99.0, 2000.0, 1200.0), (-40.0, 100.0, 2009.0, 3000.0)]
TARGETS = [(-40.0, 100.0, 2000.0, 3000.0), (-39.2, 101.3, 2006.0, 2900.0), (-20.0, 150.0, 2050.0, 5000.0)]
#         lon, lat, age, phi, signal, noise
PARAMS = [(8.0, 4.0, 20.0, 0.1, 0.04, 0.01), (2.0, 3.0, 0.0, 0.5, 1.0, 0.3), (5.0, 9.0, 2.5, 0.02, 0.002, 0.0001), (4.0, 2.0, 10.0, 2.0, 0.5, 5.0), (3.0, 2.0, 0.6, 0.2, 0.3, 0.1)]
VALUES = [34.5, 34.62, 34.41, 34.9, 34.37, 35.2, 34.55, 34.71]


def cases(tier):
    top = 4 if tier == "quick" else 6
    for pts in subsets(len(LATTICE), 1, top):
        for k in range(len(PARAMS)):
            yield {"pts": list(pts), "par": k, "tier": tier}
    for pts in subsets(len(LATTICE), 1, top - 1):       # around the equator
        for k in range(len(PARAMS)):
            yield {"pts": list(pts), "par": k, "tier": tier, "north": 39.6}
    for k in range(4 if tier == "quick" else 8):
        yield {"noise": k}
    for n in (17, 33, 65, 100, 129, 200, 257, 301) if tier == "quick" else range(9, 330, 5):
        yield {"pts": n, "par": n % len(PARAMS), "tier": tier}


def noise_case(k, res):
    """all sub-multisets of positions, all orders of a few data"""
    from pyowc.core.stats import noise_variance, signal_variance
    places = [[(0.0, 0.0), (1.0, 0.0), (0.0, 3.0), (7.0, 1.5), (2.5, -1.25), (1.0, 0.0)],
              [(0.0, 0.0), (0.004, 0.0), (0.0, 3e-5), (2.0, 1.5), (2.0003, 1.5002), (0.004, 0.0)]][k % 2]     # far from each other, near each other
    vals = [34.0 + 0.1 * ((i * 7 + k * 3) % 11) for i in range(6)]
    for pts in subsets(6, 1, 4):
        lat = np.array([places[i][0] for i in pts])
        lon = np.array([places[i][1] for i in pts]) + 10 * k
        sal = np.array([vals[i] for i in pts])
        # coinciding places: make the neighbour unique unless its value is shared
        d = (lat[:, None] - lat) ** 2 + (lon[:, None] - lon) ** 2
        amb = False
        for i in range(len(pts)):
            row = np.where(d[i] == 0, np.inf, d[i])
            if np.isfinite(row).any() and len({float(v) for v in sal[row == row.min()]}) > 1:
                amb = True
        if amb:
            continue
        want = oracle.noise_var(sal, lat, lon)
        ws = oracle.signal_var(sal)
        for perm in itertools.permutations(range(len(pts))):
            p = list(perm)
            got = float(noise_variance(sal[p], lat[p], lon[p]))
            res.count("evaluations")
            if not abs(got - want) < 1e-10:
                res.bad("noise variance of %s at %s: %r instead of %r" % (sal[p], list(zip(lat[p], lon[p])), got, want))
                return
            for shape in ((-1,), (-1, 1), (1, -1)):
                got = float(signal_variance(sal[p].reshape(shape)))
                if not abs(got - ws) < 1e-10:
                    res.bad("signal variance of %s: %r instead of %r" % (sal[p], got, ws))
                    return
            mixed = np.insert(sal[p], 1, np.nan)
            if not abs(float(signal_variance(mixed)) - ws) < 1e-10:
                res.bad("signal variance of %s: %r instead of %r" % (mixed, signal_variance(mixed), ws))
                return
        res.nontrivial("noise", k, pts)


def crowd(n):
    k = np.arange(n)
    return np.column_stack([-40 + 3 * np.sin(1.3 * k), 100 + 6 * np.cos(2.1 * k + 0.5), 1990 + (k * 0.618034 % 1) * 30, 3000 + 900 * np.sin(0.9 * k)])


def crowd_variances(sal, pts):
    from pyowc.core.stats import noise_variance, signal_variance
    for name, got, want in (("noise", noise_variance(sal, pts[:, 0], pts[:, 1]), oracle.noise_var(sal, pts[:, 0], pts[:, 1])),
                            ("signal", signal_variance(sal), oracle.signal_var(sal))):
        if not abs(float(got) - want) < 1e-10:
            return "%s variance of %d data %r instead of %r" % (name, len(sal), float(got), want)
    return None


def run(case):
    res = Result()
    if "noise" in case:
        noise_case(case["noise"], res)
        return res
    from pyowc.core.stats import covar_xyt_pv
    from pyowc.data.wrangling import map_data_grid
    many = isinstance(case["pts"], int)
    pts = crowd(case["pts"]) if many else np.array([LATTICE[i] for i in case["pts"]])
    targets = np.array(TARGETS)
    pts[:, 0] += case.get("north", 0)
    targets[:, 0] += case.get("north", 0)
    lon_s, lat_s, age, phi, signal, noise = PARAMS[case["par"]]
    n = len(pts)
    for use_pv in (0, 1):
        want = oracle.covariance(pts, targets, lat_s, lon_s, age, phi, use_pv)
        # positions are (latitude, longitude, ...); the mapping gives the longitude scale first
        got = covar_xyt_pv(pts, targets, lon_s, lat_s, age, phi, use_pv)
        if not same(got, want, 1e-11):
            res.bad("covariance %s: %s" % (pts.tolist(), diff(got, want)))
            return res
        if many:
            patterns = [34.5 + 0.3 * np.sin(2.7 * np.arange(n) + 1)]
            bad = crowd_variances(patterns[0], pts)
            if bad:
                res.bad(bad)
        else:
            patterns = [VALUES[:n], [34.5] * n, VALUES[:n][::-1]] if case["tier"] == "quick" else list(itertools.permutations(VALUES[:n]))[:24]
        for vals in patterns:
            sal = np.array(vals)
            for target in map(tuple, targets):
                res.count("evaluations")
                w = oracle.optimal_interpolation(sal, target, pts, lat_s, lon_s, age, phi, use_pv, signal, noise)
                keep = pts.copy(), sal.copy()
                g = map_data_grid(sal, np.array([target]), pts, lon_s, lat_s, age, signal, noise, phi, use_pv)
                if not (np.array_equal(keep[0], pts) and np.array_equal(keep[1], sal)):
                    res.bad("the data were changed")
                if not (np.all(np.abs(np.asarray(g[0]) - w[0]) < 1e-7)):
                    res.bad("value at %s from %s at %s: %r instead of %r" % (target, sal, pts.tolist(), g[0], w[0]))
                for q, name, tol in ((1, "error", 1e-6), (2, "values at the data", 1e-7), (3, "errors at the data", 1e-6)):
                    a, b = np.atleast_1d(np.asarray(g[q], float)), np.atleast_1d(w[q])
                    near = np.isnan(b) | (b < 1e-5) if q in (1, 3) else np.zeros(b.shape, bool)
                    if a.shape != b.shape or not np.all((np.abs(a - b) < tol) | near):
                        res.bad("%s of %s at %s: %s" % (name, sal, pts.tolist(), diff(a, b)))
                if res.problems:
                    return res
        res.nontrivial(case["pts"], case["par"], case.get("north"), use_pv)
    return res
