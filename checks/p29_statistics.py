"""P29: errors and profile statistics that come with the fit belong to the data."""
import itertools
import math

import numpy as np

import oracle
from engine import Result
from util import same, diff
from p15_fit import correlated, flat, noisy

PROP = "P29"
LEVEL = "exploration"
TECHNIQUE = "exhaustive exploration of small data sets (missing observations, weights, correlations, orders, units) on the real fit, with its statistics recomputed from their definitions"
NOTE = ("Complete within the stated bounds. The errors of fitted values other than an offset are Monte-Carlo estimates: they are compared with the exact ones to 40 percent at 400 repetitions (more than 8 standard deviations), and to 60 percent at 100 where a plain break is searched (the exact ones are then those of the linearised problem). "
        "Recorded finding: the profile means of profiles with several observations are mixed with the profile before, as an existing test demands.")
RULE = ("one case = one shape (profiles, levels, weights, correlation) with all missing patterns and orders, or one kind of fit with all break positions and units; an evaluation is one fit; "
        "non-trivial = distinct statistics")
ASSUMPTIONS = ["breaks that the data hardly show are left out: their errors are not those of the linearised problem", "for correlated observations with unequal errors only the degrees of freedom are compared"]
BATCH = 2
NAN = np.nan
FOUND = (5.5, 8.3, 7.0, 10.6, 6.5, 9.0, 12.4)


def cases(tier):
    big = tier == "thorough"
    for n in (1, 2, 3, 4, 5):
        for lv in (1, 2, 3):
            if n * lv <= (12 if big else 8):
                for k in range(4):
                    yield {"kind": "stations", "n": n, "lv": lv, "k": k}
    for n in (1, 2, 3, 4) if not big else range(1, 9):
        for lv in (1, 3, 5):
            for corr in (0, 1, 2):
                yield {"kind": "offset", "n": n, "lv": lv, "corr": corr}
    for n in (9, 14) if not big else (8, 9, 11, 14, 20):
        for nb in (0, 1, 2):
            for corr in (0, 1, 2, 3):
                for k in range(3):
                    yield {"kind": "pieces", "n": n, "nb": nb, "corr": corr, "k": k}
    for way in range(3):
        for order in range(3):
            for pieces in range(3):
                yield {"kind": "file", "way": way, "order": order, "pieces": pieces, "deep": big}
    for n in (10, 14):
        for corr in (0, 1, 2):
            for at in FOUND[:4] if not big else FOUND:
                for kink in range(2 if not big else 4):
                    if at < n - 1:
                        yield {"kind": "found", "n": n, "corr": corr, "at": at, "kink": kink, "deep": big}


def setup(tier):
    import pipe
    pipe.shared_topo()


def fit(x, y, e, cov, *args):
    from pyowc.core.stats import fit_cond
    np.random.seed(4711)
    return fit_cond(x.copy(), y.copy(), e.copy(), cov.copy(), *args)


def run(case):
    res = Result()
    globals()["case_" + case["kind"]](case, res)
    return res


def stations(x, y, e, groups):
    xx, yy, w = x.T.ravel(), y.T.ravel(), 1 / e.T.ravel() ** 2
    ok = np.isfinite(yy) & np.isfinite(xx)
    xx, yy, w = xx[ok], yy[ok], w[ok]
    o = np.argsort(xx, kind="stable")
    xx, yy, w = xx[o], yy[o], w[o]
    prof = np.unique(x)
    have = [p for p in prof if (xx == p).any()]
    mean, rms = np.full(len(prof), NAN), np.full(len(prof), NAN)
    for i, p in enumerate(prof):
        if p not in have:
            continue
        at = np.flatnonzero(xx == p)
        if groups == "shifted":     # from the second observation of the profile before to the first one of this
            before = have.index(p)
            at = np.arange(np.flatnonzero(xx == have[before - 1])[0] + 1 if before else 0, at[0] + 1)
        mean[i] = np.sum(w[at] * yy[at]) / np.sum(w[at])
        rms[i] = math.sqrt(np.sum(w[at] * (yy[at] - mean[i]) ** 2) / np.sum(w[at]))
    return mean, rms


def case_stations(case, res):
    n, lv, k = case["n"], case["lv"], case["k"]
    x0 = np.tile([2.0, 3.0, 7.0, 8.0, 12.0][:n], (lv, 1))
    y0 = [1 + 1e-3 * np.sin(2.1 * np.arange(lv * n)), 1 + 1e-3 * np.arange(lv * n) ** 2][k % 2].reshape(lv, n)
    e0 = [np.full((lv, n), 1e-4), 1e-4 * (1 + np.arange(lv * n) % 3).reshape(lv, n)][k // 2]
    cells = list(itertools.product(range(lv), range(n)))
    cov = np.eye(n * lv)
    for miss in itertools.product((0, 1), repeat=len(cells)):
        if all(miss):
            continue
        y = y0.copy()
        for c, m in zip(cells, miss):
            if m:
                y[c] = NAN
        for perm in {tuple(range(n)), tuple(range(n))[::-1], tuple(range(1, n)) + (0,)}:
            p = list(perm)
            x, z, e = x0[:, p], y[:, p], e0[:, p]
            out = fit(x, z, e, cov, "max_no_breaks", -1, "nloops", 2)
            res.count("evaluations")
            mean, rms = stations(x, z, e, "own")
            got = np.ravel(out[5]), np.ravel(out[6])
            tol = 1e-9
            if same(got[0], mean, tol) and same(got[1], rms, 1e-7):
                res.nontrivial(n, lv, k, miss)
                continue
            old = stations(x, z, e, "shifted")
            known = same(got[0], old[0], tol) and same(got[1], old[1], 1e-7)
            res.bad("x %s y %s errors %s: profile means %s, rms %s instead of %s, %s" % (x[0].tolist(), z.tolist(), e.tolist(), got[0], got[1], mean, rms),
                    key="station-means-shifted" if known else None)
            if not known:
                return
            res.nontrivial(n, lv, k, miss)


def case_offset(case, res):
    n, lv, corr = case["n"], case["lv"], case["corr"]
    x = np.tile(5.0 + 2 * np.arange(n), (lv, 1))
    cov = correlated(n, lv, corr)
    for ek in range(3):
        e = 1e-4 * [np.ones((lv, n)), 1 + np.arange(lv * n).reshape(lv, n) % 3, 1 + 0.5 * np.tile(np.arange(n) % 2, (lv, 1))][ek]
        for yk in range(3):
            y0 = 1 + [1e-4 * np.sin(2.1 * np.arange(lv * n)), 1e-2 * np.cos(np.arange(lv * n) ** 2), np.zeros(lv * n)][yk].reshape(lv, n)
            for miss in [(), ((0, 0),), tuple((i, n - 1) for i in range(lv)), tuple((0, j) for j in range(n))]:
                y = y0.copy()
                for c in miss:
                    y[c] = NAN
                if not np.isfinite(y).any():
                    continue
                for unit in (1.0, 50.0):
                    out = fit(x, unit * y, unit * e, cov, "max_no_breaks", -1, "nloops", 2)
                    res.count("evaluations")
                    xx, yy, ee, cc = flat(x, y, e, cov)
                    ndf = float(np.sum(1 / cc.sum(axis=1)))
                    what = "offset of %d profiles, %d levels, errors %d, data %d, missing %s, unit %g" % (n, lv, ek, yk, miss, unit)
                    if not abs(float(np.ravel(out[7])[0]) - ndf) < 1e-9 * ndf:
                        res.bad("%s: %s degrees of freedom instead of %s" % (what, out[7], ndf))
                        return
                    w = 1 / ee ** 2 / np.sum(1 / ee ** 2)
                    coef = np.ravel(out[8])
                    if len(coef) != 1 or not abs(coef[0] / unit - w @ yy) < 1e-9:
                        res.bad("%s: coefficients %s instead of %s" % (what, coef, unit * (w @ yy)))
                        return
                    if not np.all(np.ravel(out[3]) == 0) or np.ravel(out[3]).shape != (n,):
                        res.bad("%s: change per profile %s" % (what, np.ravel(out[3])))
                        return
                    if ek == 0 or corr == 0:
                        want = math.sqrt(w @ (cc * np.outer(ee, ee)) @ w) * unit
                        got = np.ravel(out[2])
                        if got.shape != (n,) or not np.all(np.abs(got - want) < 1e-8 * want):
                            res.bad("%s: error %s instead of %s" % (what, got, want))
                            return
                        res.nontrivial(n, lv, corr, ek, yk, len(miss), round(want * 1e7))


def fitted_errors(got, f, h, cc, ee, slack=0.4):
    """what is wrong with the errors of the fit f x coefficients; h maps the observations to the coefficients"""
    one, two = h @ np.diag(ee ** 2) @ h.T, h @ (cc * np.outer(ee, ee)) @ h.T
    factor = np.sqrt(np.diag(two) / np.diag(one))       # that correlations enlarge the error of one coefficient by
    alone = np.sqrt(np.diag(f @ one @ f.T))
    if got.shape != alone.shape or not np.all((got > (1 - slack) * alone * factor.min()) & (got < (1 + slack) * alone * factor.max())):
        return "errors of the fit %s instead of about %s, enlarged by %s" % (got, alone, factor)


def case_found(case, res):
    """one break found by searching, so plain that the error of its place is that of the linearised problem"""
    n, lv, corr = case["n"], 5, case["corr"]
    x = np.tile(np.arange(2.0, n + 2), (lv, 1))
    cov = correlated(n, lv, corr)
    e = 1e-4 * np.ones((lv, n))
    for at in [case["at"]]:
        for up, down in [((2e-3, -2e-3), (0.0, 4e-3), (1e-2, -1e-2), (-1e-2, 5e-3))[case["kink"]]]:
            for miss in ((), (1,), (n - 2,)) if case["deep"] else ((), (n - 2,)):
                y = 1 + up * np.minimum(x - 2, at - 2) + down * np.maximum(0, x - at) + 1e-4 * np.sin(1.7 * np.arange(lv * n) + at).reshape(lv, n)
                y[:, miss] = NAN
                for unit, a, b in ((1.0, 1.0, 0.0), (40.0, 3.0, 7.0)) if case["deep"] else [((40.0, 3.0, 7.0) if miss else (1.0, 1.0, 0.0))]:
                    out = fit(a * x + b, unit * y, unit * e, cov, "max_no_breaks", 1, "nloops", 300 if case["deep"] else 100)
                    res.count("evaluations")
                    xx, yy, ee, cc = flat(a * x + b, unit * y, unit * e, cov)
                    if float(np.sum(1 / cc.sum(axis=1))) < 6.5:
                        continue
                    what = "%d profiles, break at %g from %g to %g, missing %s, unit %g, correlation %d" % (n, at, up, down, miss, unit, corr)
                    place = a * at + b
                    got = np.ravel(out[9])
                    if len(got) != 1 or not abs(got[0] - place) < 0.2 * a:
                        res.bad("%s: breaks %s" % (what, got))
                        return
                    # what happens in that profile depends on which side of it the break is
                    basis = lambda v: np.hstack([oracle.basis(v, [place], xx.min()), ((up - down) / a * unit * (v > place))[:, None]])
                    g = basis(xx)
                    w = 1 / ee ** 2
                    h = np.linalg.inv(g.T @ (w[:, None] * g)) @ (g.T * w)
                    bad = fitted_errors(np.ravel(out[2]), basis(np.unique(a * x + b)), h, cc, ee, 0.6)
                    if bad:
                        res.bad("%s: %s" % (what, bad))
                        return
                    res.nontrivial(n, at, up, down, miss, unit, corr)


def case_pieces(case, res):
    n, nb, corr, k = case["n"], case["nb"], case["corr"], case["k"]
    lv = 4 if corr < 3 else 9
    x = np.tile(np.arange(2.0, n + 2), (lv, 1))
    cov = correlated(n, lv, corr)
    y0 = 1 + 1e-3 * np.arange(n) + 1e-4 * np.sin(1.7 * np.arange(lv * n) + k).reshape(lv, n)
    e0 = 1e-4 * ((1 + np.arange(lv * n) % 3).reshape(lv, n) if k == 1 and not corr else np.ones((lv, n)))
    for breaks in itertools.combinations([3.5, 5.0, 6.25, 8.0], nb):
        for miss in ((), (1,), (0,), (n - 1,)):
            y = y0.copy()
            y[0, 3] = NAN
            for m in miss:
                y[:, m] = NAN
            for a, b, unit in ((1.0, 0.0, 1.0), (10.0, 3.0, 1.0), (1.0, 0.0, 40.0)):
                args = ("breaks", a * np.array(breaks) + b, "max_no_breaks", nb) if nb else ("max_no_breaks", 0)
                out = fit(a * x + b, unit * y, unit * e0, cov, *args, "nloops", 400)
                res.count("evaluations")
                xx, yy, ee, cc = flat(a * x + b, unit * y, unit * e0, cov)
                if float(np.sum(1 / cc.sum(axis=1))) < 6:
                    continue
                bb = list(a * np.array(breaks) + b)
                g = oracle.basis(xx, bb, xx.min())
                sv = np.linalg.svd(g / np.linalg.norm(g, axis=0), compute_uv=False)
                if sv[-1] < 1e-4:
                    continue
                w = 1 / ee ** 2
                coef = oracle.weighted_lstsq(g, yy, w)
                inv = np.linalg.inv(g.T @ (w[:, None] * g))
                h = inv @ (g.T * w)
                var = h @ (cc * np.outer(ee, ee)) @ h.T
                what = "%d profiles, breaks %s, missing %s, numbers times %g plus %g, unit %g, correlation %d" % (n, breaks, miss, a, b, unit, corr)
                got = np.ravel(out[8])
                if len(got) != len(coef) or not np.all(np.abs(got - coef) < 1e-6 * np.abs(coef).max()):
                    res.bad("%s: coefficients %s instead of %s" % (what, got, coef))
                    return
                prof = np.unique(a * x + b)
                seg = [1 + sum(1 for q in bb if p >= q - 1e-9) for p in prof]
                sure = [not any(abs(p - q) < 1e-6 for q in bb) for p in prof]
                slope, err = np.ravel(out[3]), np.ravel(out[4])
                for i, p in enumerate(prof):
                    if not sure[i]:
                        continue
                    if not abs(slope[i] - coef[seg[i]]) < 1e-6 * np.abs(coef[1:]).max():
                        res.bad("%s: change per profile %s at %s instead of %s" % (what, slope[i], p, coef[seg[i]]))
                        return
                    want = math.sqrt(var[seg[i], seg[i]])
                    if not abs(err[i] - want) < 1e-5 * want:
                        res.bad("%s: error of the change per profile %s at %s instead of %s" % (what, err[i], p, want))
                        return
                bad = fitted_errors(np.ravel(out[2]), oracle.basis(prof, bb, xx.min()), h, cc, ee, 0.4 if corr < 3 else 0.3)
                if bad:
                    res.bad("%s: %s" % (what, bad))
                    return
                res.nontrivial(n, breaks, corr, k, miss, a, unit)


NUMBERS = [1, 2, 4, 5, 7, 8, 11, 12, 15, 16, 18, 21, 22, 25, 27, 28]
BREAKS = [[], [9.3, 13.0, 17.5], [(6.5, 14.2), (9.5, 19.0)]]


def case_file(case, res):
    """what the calibration file holds is the fit to the ratios of mapped and own conductivities, series by series"""
    import gsw
    import pipe
    import p16_levels as p16
    n, m = len(NUMBERS), 12
    i, k = np.arange(m)[:, None], np.arange(n)[None, :]
    pres = 100 + 110.0 * i + 9 * np.sin(k)
    ptmp = 1.2 + 12 * np.exp(-pres / 500.0) + 0.2 * np.cos(1.3 * k)
    sal = 34.3 + 0.05 * ptmp + 0.004 * np.sin(1.1 * i + 2.1 * k)
    mapped = sal + 0.01 + 0.004 * np.sin(0.7 * i + k) + 0.02 * np.cos(0.4 * k)
    error = 0.006 + 0.004 * np.cos(0.9 * i + 1.1 * k) ** 2
    if case["way"]:
        mapped[:, 3] = NAN
        mapped[4:, 9] = NAN
    if case["way"] == 2:
        mapped[1::3] = NAN
    flags = [np.ones(n), np.where(np.isin(np.arange(n), (0, 5, 12)), 0, 1), 1 + np.arange(n) % 2][case["way"]]
    series = sorted(set(flags) - {0})
    order = [list(range(n)), list(range(n))[::-1], [(5 * j + 3) % n for j in range(n)]][case["order"]]
    profs = [dict(pipe.profile(NUMBERS[j], step=0.6), no=NUMBERS[j], pres=pres[:, j], ptmp=ptmp[:, j], sal=sal[:, j], temp=ptmp[:, j]) for j in range(n)]
    with pipe.world() as w:
        cfg = w.config(MAPSCALE_LONGITUDE_SMALL=0.05, MAPSCALE_LATITUDE_SMALL=0.05)
        pipe.put_float(cfg, [profs[j] for j in order], m)
        pipe.write_mapped(cfg, profs, list(mapped.T), list(error.T), m)
        for places in [b for b in ([[]] if not case["pieces"] else itertools.product(*[([[v] for v in BREAKS[1]] if case["pieces"] == 1 else BREAKS[2])] * len(series)))]:
            places = [list(b) for b in places] or [[]] * len(series)
            pieces = case["pieces"]
            pipe.put_series(cfg, flags, NUMBERS, breaks=places if pieces else (), max_breaks=pieces or -1)
            pipe.do_fit(cfg)
            out = pipe.read(pipe.path(cfg, "cal"))
            res.count("evaluations")
            factor, change, mean, rms = (np.full(n, NAN) for _ in range(4))
            coefs, sure = [], np.ones(n, bool)
            mean_old, rms_old = np.full(n, NAN), np.full(n, NAN)
            for b, flag in zip(places, series):
                take = [j for j in range(n) if flags[j] == flag]
                want = p16.expect(sal[:, take], ptmp[:, take], pres[:, take], np.where(np.isnan(mapped), NAN, ptmp)[:, take], None, None, None, None, 0.5)
                x, y, e = (np.full((10, len(take)), NAN) for _ in range(3))
                for q, j in enumerate(take):
                    rows = [row[q] for row in want[2] if row[q] is not None]
                    c = lambda s: gsw.C_from_SP(s, ptmp[rows, j], 0)
                    own, theirs = c(sal[rows, j]), c(mapped[rows, j])
                    x[:, q] = NUMBERS[j]
                    y[:len(rows), q] = theirs / own
                    e[:len(rows), q] = 100 * (c(mapped[rows, j] + error[rows, j] / 100) - theirs) / own
                own, other = stations(x, y, e, "own"), stations(x, y, e, "shifted")
                mean[take], rms[take], mean_old[take], rms_old[take] = *own, *other
                ok = np.isfinite(y.T.ravel())
                xx, yy, ee = x.T.ravel()[ok], y.T.ravel()[ok], e.T.ravel()[ok]
                # without breaks only the offset is allowed
                g = oracle.basis(xx, b, xx.min()) if pieces else np.ones((len(xx), 1))
                coef = oracle.weighted_lstsq(g, yy, 1 / ee ** 2)
                at = np.array([NUMBERS[j] for j in take], float)
                factor[take] = (oracle.basis(at, b, xx.min()) if pieces else np.ones((len(at), 1))) @ coef
                seg = [1 + sum(1 for v in b if a >= v) for a in at]
                change[take] = [coef[v] if pieces else 0.0 for v in seg]
                sure[take] = [not any(abs(a - v) < 1e-6 for v in b) for a in at]
                coefs += list(coef)
            what = "flags %s, order %s, breaks %s" % (np.array(flags).tolist(), order, places)
            o = np.array(order)
            got = np.ravel(out["pcond_factor"])
            if not same(got, factor[o], 1e-8):
                res.bad("%s: correction %s" % (what, diff(got, factor[o])))
                return
            got = np.ravel(out["fcoef"])
            if not same(got, coefs, 1e-8):
                res.bad("%s: coefficients %s instead of %s" % (what, got, coefs))
                return
            got = np.ravel(out["fbreaks"])
            if not same(got, [v for b in places for v in b], 1e-8):
                res.bad("%s: breaks %s" % (what, got))
                return
            got = np.ravel(out["time_deriv"])
            got = np.where(sure[o], got, change[o])
            if not same(got, change[o], 1e-8):
                res.bad("%s: change per profile %s" % (what, diff(got, change[o])))
                return
            got = np.ravel(out["sta_mean"]), np.ravel(out["sta_rms"])
            if not same(got[0], mean[o], 1e-9) or not same(got[1], rms[o], 1e-7):
                known = same(got[0], mean_old[o], 1e-9) and same(got[1], rms_old[o], 1e-7)
                res.bad("%s: means %s, rms %s instead of %s, %s" % (what, got[0], got[1], mean[o], rms[o]), key="station-means-shifted" if known else None)
                if not known:
                    return
            res.nontrivial(case["way"], case["order"], places, factor.tolist())
