"""P24: the error covariance of calibration levels follows distance and water mass."""
import itertools
import math

import numpy as np

import oracle
from engine import Result
from util import same, diff

PROP = "P24"
LEVEL = "exploration"
RULE = ("one case = the first temperatures of a block of profiles with all completions and all position lattices; an evaluation is one covariance matrix, all its elements compared; "
        "non-trivial = distinct (temperatures, positions, PV) of a matrix")
ASSUMPTIONS = ["no profile exactly on the equator when potential vorticity is in use"]

BOUNDS = [30, 24, 18, 12, 8, 4, 2.5, 1, -2]
DOWN = [6, 6, 6, 4, 4, 1.5, 1.5, 1, 1]
UP = [6, 6, 6, 6, 4, 4, 1.5, 1.5, 1]
THETA = [None, -2.3, -2.0, -0.5, 1.0, 2.0, 2.5, 3.3, 4.0, 7.0, 8.0, 10.0, 12.0, 17.9, 18.0, 24.0, 27.0, 30.0, 31.5]
NAN = float("nan")
POS = [(-40.0, 100.0, 3000.0), (-40.0, 102.0, 3000.0), (-37.5, 100.0, 3000.0), (-40.0, 100.0, 1500.0), (35.0, -3.0, 4200.0), (1.5, 100.0, 3000.0), (-0.7, 100.5, 2800.0), (0.01, 100.2, 3100.0)]
SCALES = [{"MAPSCALE_LONGITUDE_SMALL": 4, "MAPSCALE_LATITUDE_SMALL": 2, "MAPSCALE_PHI_SMALL": 0.1},
          {"MAPSCALE_LONGITUDE_SMALL": 1.5, "MAPSCALE_LATITUDE_SMALL": 3.7, "MAPSCALE_PHI_SMALL": 0.6}]


def cases(tier):
    for a in range(len(THETA)):
        yield {"kind": "theta", "first": a, "levels": 2 if tier == "quick" else 3}
    for n, m in ((40, 10), (130, 3), (5, 65), (2, 150), (64, 4)):
        yield {"kind": "size", "n": n, "m": m}
    for place in range(len(PLACES)):
        for pv in (0, 1):
            for sc in range(len(SCALES)):
                yield {"kind": "file", "place": place, "pv": pv, "scale": sc}
    for way in range(len(WAYS)):
        for pv in (0, 1):
            yield {"kind": "file", "place": 0, "pv": pv, "scale": way % 2, "way": way}
    for n in (1, 2, 3):
        for pos in itertools.product(range(len(POS)), repeat=n):
            yield {"kind": "pos", "pos": list(pos)}


PLACES = [(-40.3, 100.2), (-33.0, 359.7), (21.4, 180.1), (-62.2, 0.3), (48.0, 250.0)]


WAYS = [(0, 90, 179, 181, 182.5, 270), (0, 120, 179.5, 240, 180.2, 359), (182, 181, 179, 10, 0, 177), (0, -100, -179, -182, -180.5, -300)]


def setup(tier):
    import pipe
    pipe.shared_topo()


def in_files(case, res):
    """the errors in the calibration file are those of the positions, depths and temperatures of the profiles"""
    import gsw
    import model
    import pipe
    import p16_levels as p16
    n, m = 6, 12
    at = PLACES[case["place"]]
    cfg0 = dict(SCALES[case["scale"]], MAP_USE_PV=case["pv"])
    i, k = np.arange(m)[:, None], np.arange(n)[None, :]
    pres = 100 + 110.0 * i + 9 * np.sin(k)
    ptmp = 1.2 + 12 * np.exp(-pres / 500.0) + 0.2 * np.cos(1.3 * k)
    sal = 34.3 + 0.05 * ptmp + 0.004 * np.sin(1.1 * i + 2.1 * k)
    lats, longs = at[0] + 0.8 * np.sin(1.9 * k[0]), (at[1] + 0.9 * np.cos(2.3 * k[0])) % 360
    if "way" in case:           # the float drifts around the globe
        longs = (at[1] + np.array(WAYS[case["way"]])) % 360
    mapped = sal + 0.01 + 0.002 * np.sin(0.7 * i + k)
    mapped[:3, 1] = mapped[:5, 4] = NAN
    c = lambda s: gsw.C_from_SP(s, ptmp, 0)
    even = 2e-4
    error = even * c(sal) / ((c(mapped + 1e-4) - c(mapped)) / 1e-4)         # the same error of every ratio
    profs = [dict(pipe.profile(j), lat=lats[j], long=longs[j], pres=pres[:, j], ptmp=ptmp[:, j], sal=sal[:, j], temp=ptmp[:, j]) for j in range(n)]
    z = [p["z"] for p in model.cast_depths(profs)]
    with pipe.world() as w:
        cfg = w.config(**cfg0)
        pipe.put_float(cfg, profs, m)
        pipe.write_mapped(cfg, profs, list(mapped.T), list(error.T), m)
        for flags in itertools.product((1, 0), repeat=n):
            take = [j for j in range(n) if flags[j]]
            if len(take) < 2:
                continue
            want = p16.expect(sal[:, take], ptmp[:, take], pres[:, take], np.where(np.isnan(mapped), NAN, ptmp)[:, take], None, None, None, None, 0.5)
            ten = np.full((10, len(take)), NAN)
            for q, j in enumerate(take):
                rows = [row[q] for row in want[2] if row[q] is not None]
                ten[:len(rows), q] = ptmp[rows, j]
            cov = expect(ten, np.array([(lats[j], longs[j], z[j]) for j in take]), cfg0)
            ok = np.isfinite(ten.T.ravel())
            cov = cov[np.ix_(ok, ok)]
            value = even * math.sqrt(cov.sum()) / len(cov)
            pipe.put_series(cfg, flags, [p["no"] for p in profs], max_breaks=-1)
            pipe.do_fit(cfg)
            got = np.ravel(pipe.read(pipe.path(cfg, "cal"))["pcond_factor_err"])
            res.count("evaluations")
            if not same(got, np.where(np.array(flags) == 1, value, NAN), value * 2e-3):
                res.bad("profiles at %s, flags %s, %s: error of the correction %s instead of %s" % (list(zip(lats, longs)), flags, cfg0, got, value))
                return
            res.nontrivial(case["place"], flags, case["pv"], case["scale"], value)


def scale(theta, table):
    if theta is None or math.isnan(theta) or theta > 30 or theta < -2:
        return NAN
    for (a, sa), (b, sb) in zip(zip(BOUNDS, table), zip(BOUNDS[1:], table[1:])):
        if b <= theta <= a:
            return sb + (sa - sb) * (theta - b) / (a - b)


def horizontal(p, q, cfg):
    d = ((p[0] - q[0]) / cfg["MAPSCALE_LATITUDE_SMALL"]) ** 2 + (min((p[1] - q[1]) % 360, (q[1] - p[1]) % 360) / cfg["MAPSCALE_LONGITUDE_SMALL"]) ** 2
    if cfg["MAP_USE_PV"]:
        u, v = oracle.pv(p[0], p[2]), oracle.pv(q[0], q[2])
        d += ((u - v) / math.sqrt(u * u + v * v) / cfg["MAPSCALE_PHI_SMALL"]) ** 2
    return math.exp(-d)


def expect(ptmp, coord, cfg):
    m, n = ptmp.shape
    out = np.zeros((m * n, m * n))
    for p in range(n):
        for i in range(m):
            for j in range(m):
                if i == j:
                    v = 1.0
                else:
                    s = scale(ptmp[i, p], DOWN if i < j else UP)
                    v = math.exp(-((ptmp[j, p] - ptmp[i, p]) / s) ** 2)
                    v = 1.0 if math.isnan(v) else v
                for q in range(n):
                    out[p * m + i, q * m + j] = v * horizontal(coord[p], coord[q], cfg)
    return out


def check(res, ptmp, coord, cfg):
    from pyowc.core.stats import build_cov
    a, b = ptmp.copy(), coord.copy()
    got = build_cov(a, b, cfg)
    res.count("evaluations")
    if not (np.array_equal(a, ptmp, equal_nan=True) and np.array_equal(b, coord, equal_nan=True)):
        res.bad("the inputs were changed")
    want = expect(ptmp, coord, cfg)
    if not same(got, want, 1e-10):
        res.bad("theta %s at %s with %s: %s" % (ptmp.tolist(), coord.tolist(), cfg, diff(got, want)))
    else:
        res.nontrivial(ptmp.tolist(), coord.tolist(), cfg["MAP_USE_PV"])


def run(case):
    res = Result()
    if case["kind"] == "theta":
        first = THETA[case["first"]]
        rest = list(itertools.product(THETA, repeat=case["levels"] - 1))
        cols = [[NAN if v is None else v for v in (first,) + r] for r in rest]
        cfg = dict(SCALES[0], MAP_USE_PV=0)
        for i in range(0, len(cols)):
            ptmp = np.array([cols[i], cols[(i * 7 + 3) % len(cols)]]).T
            if case["levels"] == 2:      # third level repeats the pattern in another order
                ptmp = np.vstack([ptmp, ptmp[0]])
            check(res, ptmp, np.array([POS[0], POS[i % len(POS)]]), cfg)
            if res.problems:
                break
    elif case["kind"] == "file":
        in_files(case, res)
    elif case["kind"] == "size":
        n, m = case["n"], case["m"]
        k = np.arange(n)
        coord = np.column_stack([-40 + 3 * np.sin(k), 100 + 0.11 * k, 3000 + 800 * np.cos(1.3 * k)])
        ptmp = 1.5 + 20 * np.exp(-np.arange(m)[:, None] / (0.4 * m)) + 0.3 * np.sin(k)[None, :]
        ptmp[(np.arange(m)[:, None] * 3 + k[None, :]) % 11 == 0] = NAN
        for pv in (0, 1):
            check(res, ptmp, coord, dict(SCALES[pv], MAP_USE_PV=pv))
    else:
        coord = np.array([POS[i] for i in case["pos"]])
        for sc in SCALES:
            for pv in (0, 1):
                for m in (1, 2):
                    ptmp = np.array([[9.0 - 2 * k + 0.3 * c for c in range(len(coord))] for k in range(m)])
                    check(res, ptmp, coord, dict(sc, MAP_USE_PV=pv))
    return res
