"""P15: the piecewise linear fit is the weighted least-squares fit it claims to be."""
import itertools
import math

import numpy as np

import oracle
from engine import Result
from util import same, diff

PROP = "P15"
LEVEL = "exploration"
RULE = ("one case = one shape (profiles, levels, spacing, weights, correlation) and kind of fit with all completions of values, break positions, missing cells and orders; "
        "an evaluation is one fit; non-trivial = distinct (kind of fit found, parameters)")
ASSUMPTIONS = ["data sets that do not determine the fit (rank deficient) are left out",
               "searched break points and their fits agree to 1e-3 of the data range (stopping rule of the search)",
               "searching further breaks next to prescribed ones is a recorded finding"]
BATCH = 2
NAN = np.nan


def cases(tier):
    big = tier == "thorough"
    for n in (3, 4, 5) if not big else (3, 4, 5, 6, 7):
        for b in range(0, 3):
            yield {"kind": "brk", "n": n, "b": b}
    for n in (1, 2, 3, 4, 5, 8) if not big else range(1, 15):
        for lv in (1, 2, 10):
            for corr in (0, 1, 2):
                for mx in (-1, 0):
                    yield {"kind": "noBreaks", "n": n, "lv": lv, "corr": corr, "max": mx, "big": big}
    for n, lv in ((33, 10), (65, 10), (130, 3), (257, 2), (300, 1), (20, 40)) + (((130, 10), (300, 10)) if big else ()):
        for corr in (0, 1, 2) if big else (0, 2):
            for mx in (-1, 0):
                yield {"kind": "noBreaks", "n": n, "lv": lv, "corr": corr, "max": mx, "big": big}
    for n, shapes in ((40, ("const", "trend", "one:7", "one:20", "one:35")),) + (((90, ("trend", "one:12", "one:50", "one:80")),) if big else ()):
        for shape in shapes:
            for mx in (1, 4) if big else (1,):
                yield {"kind": "recover", "n": n, "shape": shape, "max": mx}
    for n in (12, 20) if not big else (10, 12, 16, 20, 31):
        for shape in ["const", "trend"] + ["one:%d" % k for k in range(3, n - 3, 1 if big else 3)]:
            for mx in (1, 2, 4):
                yield {"kind": "recover", "n": n, "shape": shape, "max": mx}
    for n in (9, 14):
        for mx in (-1, 0, 1, 2, 4):
            for k in range(4 if not big else 10):
                yield {"kind": "invariance", "n": n, "max": mx, "k": k}
    for n in (8, 13):
        for nb in (1, 2, 3):
            for k in range(3 if not big else 8):
                yield {"kind": "prescribed", "n": n, "nb": nb, "k": k}
    for nb in (4, 5, 7):
        yield {"kind": "prescribed", "n": 40, "nb": nb, "k": nb % 3}
    yield {"kind": "searchMore"}
    yield {"kind": "empty"}


def fit(x, y, e, cov, *args):
    from pyowc.core.stats import fit_cond
    np.random.seed(4711)
    a = [v.copy() for v in (x, y, e, cov)]
    out = fit_cond(a[0], a[1], a[2], a[3], "nloops", 2, *args)
    for v, w in zip(a, (x, y, e, cov)):
        assert np.array_equal(v, w, equal_nan=True), "fit_cond changed its input"
    return out


def correlated(n, lv, corr):
    c = np.eye(n * lv)
    if corr == 1:
        c = np.kron(np.eye(n), 0.8 * np.ones((lv, lv)) + 0.2 * np.eye(lv))
    elif corr == 2:
        d = np.subtract.outer(np.arange(n), np.arange(n))
        c = np.kron(np.exp(-(d / 1.5) ** 2), np.exp(-np.subtract.outer(np.arange(lv), np.arange(lv)) ** 2 / 4.0))
    elif corr == 3:
        c = np.kron(np.eye(n), 0.96 * np.ones((lv, lv)) + 0.04 * np.eye(lv))
    return c


def flat(x, y, e, cov):
    xx, yy, ee = x.T.ravel(), y.T.ravel(), e.T.ravel()
    ok = np.isfinite(xx) & np.isfinite(yy)
    return xx[ok], yy[ok], ee[ok], cov[np.ix_(ok, ok)]


def solve(xx, yy, ee, breaks, xfit, order):
    if order == 0:
        e, f = np.ones((len(xx), 1)), np.ones((len(xfit), 1))
    else:
        org = xx.min()
        e, f = oracle.basis(xx, breaks, org), oracle.basis(xfit, breaks, org)
    if np.linalg.matrix_rank(e * (1 / ee)[:, None], tol=1e-9 * np.abs(e / ee[:, None]).max()) < e.shape[1]:
        return None
    a = oracle.weighted_lstsq(e, yy, 1 / ee ** 2)
    return f @ a, float(np.sum(((yy - e @ a) / ee) ** 2)), a


def aicc(rss, ndf, n, p):
    return ndf * math.log(rss / n) + ndf * (ndf + p) / (ndf - p - 2) if rss > 0 else -math.inf


def run(case):
    res = Result()
    globals()["case_" + case["kind"]](case, res)
    return res


def case_brk(case, res):
    from pyowc.core.stats import brk_pt_fit
    n, b = case["n"], case["b"]
    xs = [-1.0, -0.55, -0.1, 0.3, 0.62, 0.9, 1.0][:n]
    mids = [(p + q) / 2 + 0.02 for p, q in zip(xs, xs[1:])] + [xs[1], xs[-2]]
    for mult in ((1,) * n, tuple(1 + (i % 2) for i in range(n)), (3,) + (1,) * (n - 1)):
        x = np.repeat(xs, mult)
        m = len(x)
        for breaks in itertools.combinations(sorted(set(mids)), b):
            e = oracle.basis(x, breaks, x[0])
            for w in (np.ones(m), 0.2 + np.arange(m) * 0.7 % 1.9, np.where(np.arange(m) % 3, 1.0, 25.0)):
                for y in (np.zeros(m), np.cos(3 * np.arange(m)), np.arange(m) ** 2.0, 5 + 1e-3 * np.sin(np.arange(m))):
                    for wi in (np.diag(w), []):
                        res.count("evaluations")
                        if len(wi) == 0 and w[0] != 1:
                            continue
                        keep = x.copy(), y.copy()
                        sv = np.linalg.svd(e * np.sqrt(w)[:, None], compute_uv=False)
                        if len(sv) < b + 2 or sv[-1] < 1e-5 * sv[0]:
                            continue
                        a, r = brk_pt_fit(x, y, wi, np.array(breaks) if breaks else None)
                        assert np.array_equal(keep[0], x) and np.array_equal(keep[1], y), "input changed"
                        want = oracle.weighted_lstsq(e, y, w)
                        if not (same(np.ravel(a), want, 1e-7, 1e-7) and same(np.ravel(r), y - e @ want, 1e-7, 1e-7)):
                            res.bad("x %s y %s weights %s breaks %s: %s" % (x.tolist(), y.tolist(), w.tolist(), breaks, diff(np.ravel(a), want)))
                            return
                        res.nontrivial(np.round(want, 9).tolist(), breaks)


def patterns(n, lv, big):
    """missing cells"""
    cells = list(itertools.product(range(lv), range(n)))
    yield ()
    if n > 20 or lv > 10:
        yield tuple((i, k) for k in range(5, n, 9) for i in range(lv))
        yield tuple(c for c in cells if (c[0] * 3 + c[1]) % 7 == 0)
    elif n * lv <= (6 if not big else 9):
        for k in range(1, n * lv):
            yield from itertools.combinations(cells, k)
    else:
        for k in range(n):
            yield tuple((i, k) for i in range(lv))
        for i in range(lv):
            yield ((i, 0),)
            yield ((i, n - 1), (0, n // 2))
        yield tuple(c for c in cells if (c[0] + c[1]) % 2)


def case_noBreaks(case, res):
    n, lv, mx = case["n"], case["lv"], case["max"]
    x = np.tile(3.0 + 1.5 * np.arange(n) + 0.3 * (np.arange(n) % 2), (lv, 1))
    cov = correlated(n, lv, case["corr"])
    ys = [1 + 1e-4 * np.sin(2.1 * np.arange(lv * n)).reshape(lv, n), 1 + 1e-4 * np.arange(n)[None, :] + 2e-5 * np.cos(1.3 * np.arange(lv * n)).reshape(lv, n),
          0.9 - 1e-3 * np.arange(n)[None, :] ** 2 + 1e-4 * np.cos(np.arange(lv * n)).reshape(lv, n)]
    es = [np.full((lv, n), 1e-4), 1e-4 * (1 + (np.arange(lv * n) % 5)).reshape(lv, n)]
    for miss in patterns(n, lv, case["big"]):
        for y0, e in itertools.product(ys, es) if n * lv <= 200 or case["big"] else [(ys[1], es[1])] if miss else [(ys[0], es[1]), (ys[2], es[0])] if n * lv < 500 else [(ys[2], es[1])]:
            y = y0.copy()
            for c in miss:
                y[c] = NAN
            check_simple(res, x, y, e, cov, mx)
            if res.problems:
                return


def check_simple(res, x, y, e, cov, mx):
    res.count("evaluations")
    out = fit(x, y, e, cov, "max_no_breaks", mx)
    xfit = np.unique(x)
    xx, yy, ee, cc = flat(x, y, e, cov)
    if not same(out[0], xfit, 1e-9):
        res.bad("profiles %s instead of %s" % (out[0], xfit))
        return
    got = np.ravel(out[1])
    if len(got) != len(xfit):
        res.bad("%d fitted values for %d profiles" % (len(got), len(xfit)))
        return
    if len(yy) == 0:
        if not np.isnan(got).all():
            res.bad("fitted values without data")
        return
    ndf = float(np.sum(1 / cc.sum(axis=1)))
    offset = solve(xx, yy, ee, [], xfit, 0)
    allowed = [offset[0]]
    if mx == 0 and ndf >= 5 + 1e-9:
        trend = solve(xx, yy, ee, [], xfit, 1)
        if trend is None:
            return
        d = aicc(trend[1], ndf, len(yy), 2) - aicc(offset[1], ndf, len(yy), 1)
        if d < -1e-6:
            allowed = [trend[0]]
        elif d < 1e-6:
            allowed.append(trend[0])
    elif mx == 0 and abs(ndf - 5) < 1e-6:
        return
    amp = max(np.ptp(yy), 1e-6)
    if not any(np.all(np.abs(got - a) < 1e-6 * amp) for a in allowed):
        res.bad("x %s y %s err %s, max breaks %d, %g degrees of freedom: fitted %s instead of %s" % (
            x[0].tolist(), y.tolist(), e.tolist(), mx, ndf, got.tolist(), allowed[0].tolist()))
        return
    res.nontrivial(len(allowed[0]), np.round(allowed[0], 7).tolist(), mx)


def curve(shape, p):
    n = len(p)
    if shape == "const":
        return 1.0 + 0 * p
    if shape == "trend":
        return 1.0 + 2e-4 * p
    b = int(shape.split(":")[1])
    return 1.0 + 3e-4 * np.clip(p - b, 0, None)


def case_recover(case, res):
    n = case["n"]
    p = np.arange(1.0, n + 1)
    for lv, noise in ((10, 0.0), (6, 1e-7)):
        y = np.tile(curve(case["shape"], p), (lv, 1)) + noise * np.cos(5.3 * np.arange(lv * n)).reshape(lv, n)
        for drop in (None, n // 2):
            z = y.copy()
            if drop is not None:
                z[:, drop] = NAN
            x = np.tile(p, (lv, 1))
            e = np.full((lv, n), 1e-5)
            out = fit(x, z, e, np.eye(n * lv), "max_no_breaks", case["max"])
            res.count("evaluations")
            want = curve(case["shape"], p)
            got = np.ravel(out[1])
            amp = max(np.ptp(want), 1e-4)
            tol = 2e-3 * amp + 3 * noise
            if drop is not None:
                hide = np.abs(p - p[drop]) < 0.5
                got, want = got[~hide], want[~hide]
            if got.shape != want.shape or not np.all(np.abs(got - want) < tol):
                res.bad("%s over %d profiles with up to %d breaks, profile %s missing: %s" % (case["shape"], n, case["max"], drop, diff(got, want)))
                return
            fb = np.ravel(np.asarray(out[9], float))
            res.nontrivial(case["shape"], n, case["max"], len(fb))


def noisy(n, lv, k):
    p = np.arange(1.0, n + 1)
    y = 1 + [0, 1e-4, 0, 2e-4][k % 4] * p + [0, 0, 5e-4, -6e-4][k % 4] * np.clip(p - n / 2 - 0.3 * k, 0, None)
    return np.tile(y, (lv, 1)) + 3e-5 * np.sin(1.7 * np.arange(lv * n) + k + 0.01 * np.arange(lv * n) ** 2).reshape(lv, n)


def case_invariance(case, res):
    n, mx, k, lv = case["n"], case["max"], case["k"], 5
    x = np.tile(np.arange(1.0, n + 1), (lv, 1))
    y = noisy(n, lv, k)
    e = 1e-5 * (1 + (np.arange(lv * n) % 3)).reshape(lv, n)
    y[2, 3] = NAN
    y[:, 6] = NAN
    cov = correlated(n, lv, [0, 1, 2][k % 3] if k < 3 else 0)
    args = ("max_no_breaks", mx)
    base = fit(x, y, e, cov, *args)
    ref = np.ravel(base[1])
    bb = np.ravel(np.asarray(base[9], float))
    amp = np.nanmax(y) - np.nanmin(y)
    tol = (1e-6 if mx < 1 else 1e-3) * amp     # the search for breaks stops at a relative change of 1e-6 in the sum of squares
    res.count("evaluations")
    if ref.shape != (n,) or not np.isfinite(ref).all():
        res.bad("a profile has no fitted value: %s" % ref)
        return
    # the returned model is the least squares fit for its breaks, no worse than offset and trend
    xx, yy, ee, cc = flat(x, y, e, cov)
    ndf = float(np.sum(1 / cc.sum(axis=1)))
    nc = len(np.ravel(base[8]))
    best = solve(xx, yy, ee, list(bb), np.unique(x), 0 if nc == 1 else 1)
    if best is not None and not np.all(np.abs(best[0] - ref) < tol):
        res.bad("not the least squares fit for its break points %s: %s" % (bb, diff(ref, best[0])))
        return
    if best is not None and mx >= 0 and ndf > 5:
        p = {1: 1, 2: 2}.get(nc, 2 * (len(bb) + 1))
        for order, q in ((0, 1), (1, 2)):
            o = solve(xx, yy, ee, [], np.unique(x), order)
            if aicc(best[1], ndf, len(yy), p) > aicc(o[1], ndf, len(yy), q) + 1e-4:
                res.bad("worse than the %s by the criterion" % ("offset", "trend")[order])
                return
    lvcols = lambda perm: np.concatenate([np.arange(c * lv, (c + 1) * lv) for c in perm])
    # order of the profiles
    perms = [list(range(n))[::-1], list(range(1, n)) + [0], [(5 * i) % n if math.gcd(5, n) == 1 else (i + 3) % n for i in range(n)]]
    perms += [[j if i == a else a if i == j else i for i in range(n)] for a in range(0, n, 2) for j in range(a + 1, n, 3)][:8]
    for perm in perms:
        ii = lvcols(perm)
        out = fit(x[:, perm], y[:, perm], e[:, perm], cov[np.ix_(ii, ii)], *args)
        res.count("evaluations")
        if not (same(out[0], np.unique(x), 1e-9) and np.all(np.abs(np.ravel(out[1]) - ref) < tol)):
            res.bad("order %s of the profiles: %s" % (perm, diff(np.ravel(out[1]), ref)))
            return
    # numbering
    for a, b in ((1.0, 100.0), (1.0, -3.0), (10.0, 0.0), (0.25, 7.0)):
        out = fit(a * x + b, y, e, cov, *args)
        res.count("evaluations")
        ob = np.ravel(np.asarray(out[9], float))
        if not np.all(np.abs(np.ravel(out[1]) - ref) < tol):
            res.bad("profile numbers times %g plus %g: %s" % (a, b, diff(np.ravel(out[1]), ref)))
            return
        if ob.shape != bb.shape or not np.all(np.abs(ob - (a * bb + b)) < 0.02 * a * n):
            res.bad("profile numbers times %g plus %g: breaks %s, were %s" % (a, b, ob, bb))
            return
        if not np.all(np.abs(np.ravel(out[3]) * a - np.ravel(base[3])) < 1e-3 * amp):
            res.bad("profile numbers times %g plus %g: change per profile %s, was %s" % (a, b, np.ravel(out[3]), np.ravel(base[3])))
            return
    # scale of the data
    for c in (2.0, 1e-3, 50.0):
        out = fit(x, c * y, c * e, cov, *args)
        res.count("evaluations")
        if not np.all(np.abs(np.ravel(out[1]) / c - ref) < tol):
            res.bad("data times %g: %s" % (c, diff(np.ravel(out[1]) / c, ref)))
            return
    # missing observations are as if not there
    out = fit(xx[None, :], yy[None, :], ee[None, :], cc, *args)
    res.count("evaluations")
    want = np.delete(ref, 6)
    if not np.all(np.abs(np.ravel(out[1]) - want) < tol):
        res.bad("without the missing observations: %s" % diff(np.ravel(out[1]), want))
        return
    # neighbouring levels exchanged (with their errors and correlations)
    ii = np.arange(lv * n).reshape(n, lv)[:, ::-1].ravel()
    out = fit(x, y[::-1], e[::-1], cov[np.ix_(ii, ii)], *args)
    res.count("evaluations")
    if not np.all(np.abs(np.ravel(out[1]) - ref) < tol):
        res.bad("levels in reverse order: %s" % diff(np.ravel(out[1]), ref))
        return
    # slopes reported are those of the fit
    td = np.ravel(base[3])
    px = np.unique(x)
    for i in range(n - 1):
        if not np.any((bb > px[i] - 0.01) & (bb < px[i + 1] + 0.01)) and abs((ref[i + 1] - ref[i]) / (px[i + 1] - px[i]) - td[i]) > (1e-4 if mx < 1 else 2e-3) * amp:
            res.bad("change per profile %r at profile %r, fitted values change by %r" % (td[i], px[i], ref[i + 1] - ref[i]))
            return
    res.nontrivial(n, mx, k, np.round(bb, 2).tolist(), nc)


def case_prescribed(case, res):
    n, nb, k, lv = case["n"], case["nb"], case["k"], 4
    x = np.tile(np.arange(2.0, n + 2), (lv, 1))
    e = 1e-5 * (1 + (np.arange(lv * n) % 4)).reshape(lv, n)
    pool = [3.5, 5.0, 6.25, 8.0, 12.3, 18.0, 25.5, 31.0, 36.5][:nb + 2]
    for breaks in itertools.combinations(pool, nb):
        y = noisy(n, lv, k)
        for miss in ((), (1,), (n - 2,)):
            z = y.copy()
            z[0, 2] = NAN
            for m in miss:
                z[:, m] = NAN
            cov = correlated(n, lv, k % 2)
            xx, yy, ee, _ = flat(x, z, e, cov)
            want = solve(xx, yy, ee, breaks, np.unique(x), 1)
            if want is None:
                continue
            out = fit(x, z, e, cov, "breaks", np.array(breaks), "max_no_breaks", nb)
            res.count("evaluations")
            amp = np.nanmax(z) - np.nanmin(z)
            if not np.all(np.abs(np.ravel(out[1]) - want[0]) < 1e-6 * amp):
                res.bad("breaks %s, missing %s: %s" % (breaks, miss, diff(np.ravel(out[1]), want[0])))
                return
            if not same(np.ravel(out[9]), breaks, 1e-8):
                res.bad("breaks %s prescribed, %s used" % (breaks, out[9]))
                return
            # through MATLAB files break points come as float arrays, also when nothing is prescribed
            res.nontrivial(n, breaks, k, miss)
    a = fit(x, noisy(n, lv, k), e, np.eye(n * lv), "breaks", np.array([]), "max_no_breaks", 2)
    b = fit(x, noisy(n, lv, k), e, np.eye(n * lv), "max_no_breaks", 2)
    if not same(np.ravel(a[1]), np.ravel(b[1]), 1e-9):
        res.bad("an empty list of breaks changes the fit")


def case_searchMore(case, res):
    x = np.tile(np.arange(1.0, 21), (5, 1))
    y = noisy(20, 5, 2)
    res.nontrivial("searchMore")
    try:
        out = fit(x, y, np.full((5, 20), 1e-5), np.eye(100), "breaks", np.array([8.0]), "max_no_breaks", 2)
        assert np.isfinite(np.ravel(out[1])).all()
    except Exception as exc:
        res.bad("one break prescribed, up to two allowed: %r" % (exc,), key="search-beside-prescribed-breaks")


def case_empty(case, res):
    for n in (1, 3):
        x = np.tile(np.arange(1.0, n + 1), (4, 1))
        for mx in (-1, 0, 4):
            out = fit(x, np.full((4, n), NAN), np.full((4, n), 1e-5), np.eye(4 * n), "max_no_breaks", mx)
            res.count("evaluations")
            if not (np.ravel(out[1]).shape == (n,) and np.isnan(np.ravel(out[1])).all() and np.isnan(np.ravel(out[2])).all()):
                res.bad("no data, %d profiles: %s" % (n, out[1]))
    res.nontrivial("empty")
