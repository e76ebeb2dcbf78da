"""P28: settings of series and breaks that contradict each other calibrate nothing."""
import itertools
import os

import numpy as np

import pipe
from engine import Result
import p13_factor as p13

PROP = "P28"
LEVEL = "exploration"
TECHNIQUE = "exhaustive exploration of the settings of series, maximum numbers of breaks and prescribed breaks on the real calibration, against an independent table of which settings go together"
NOTE = ("All combinations within the bounds: up to three series, up to four maxima from -1 to 2, up to three (quick) or four sets of up to two (three) breaks with missing entries in any place. "
        "A series with a maximum of -1 and no prescribed break is left out where other series have prescribed breaks (there is no way to prescribe no break for an offset), "
        "and so is a search beside prescribed breaks (a finding of P15).")
RULE = ("one case = flags of a float and the maxima of its series, with all prescribed breaks; an evaluation is one calibration, over an earlier calibration in every second one; "
        "non-trivial = distinct (number of series, maxima, breaks)")
ASSUMPTIONS = ["one series with several maxima uses the first one (it is reported, and calibrated)"]
BATCH = 2
NAN = np.nan
N = 9
FLAGS = [[0, 0, 0, 0, 0, 0, 0, 0, 0], [1, 1, 1, 1, 1, 1, 1, 1, 1], [4, 4, 4, 0, 4, 4, 4, 4, 4], [1, 1, 1, 1, 1, 2, 2, 2, 2], [3, 3, 3, 3, 0, 2, 2, 2, 2], [1, 1, 1, 2, 2, 2, 3, 3, 3]]
SHAPES = ("cal_SAL", "cal_SAL_err", "cal_COND", "cal_COND_err", "sta_SAL", "sta_SAL_err")
ROWS = ("pcond_factor", "pcond_factor_err", "time_deriv", "time_deriv_err", "sta_mean", "sta_rms")


def setup(tier):
    pipe.shared_topo()


def cases(tier):
    big = tier == "thorough"
    for f in range(len(FLAGS)):
        for k in range(1, 5):
            for mb in itertools.product((-1, 0, 1, 2), repeat=k):
                if k == 4 and not big and len(set(mb)) > 1:
                    continue
                yield {"flags": f, "max": list(mb), "rows": 4 if big else 3, "cols": 2, "thin": 1 if big else 5 if k == 3 else 1}


def breaks_of(rows, cols, nos, flags, order):
    """all sets of prescribed breaks: which entries are missing; the others lie between the profiles of their series"""
    yield None
    for r in range(1, rows + 1):
        for present in itertools.product(itertools.product((0, 1), repeat=cols), repeat=r):
            if r == 4 and len({sum(p) for p in present}) > 1:
                continue
            out = []
            for i, p in enumerate(present):
                mine = [x for x, f in zip(nos, flags) if i < len(order) and f == order[i]] or nos
                at = [(mine[len(mine) // 3] + mine[len(mine) // 3 - 1]) / 2.0, (mine[-1 - len(mine) // 3] + mine[-len(mine) // 3]) / 2.0]
                out.append([b if q else NAN for b, q in zip(at, p)])
            yield out


def float_data():
    profs, m = p13.build([2, 3, 5, 6, 7, 9, 10, 12, 13], 1)
    for j, p in enumerate(profs):
        p["sal"] = p["sal"] + 0.01 * np.sin(2.2 * j) + 0.003 * np.cos(1.1 * j + np.arange(len(p["sal"])))
    return profs, m


def verdict(order, mb, br):
    """'fits together', 'contradiction' or None (neither is claimed)"""
    n = len(order)
    if n > 1 and len(mb) not in (1, n):
        return "contradiction"
    if br is None:
        return "fits" if n else None
    if len(br) != n:
        return "contradiction"
    mb = mb * n if len(mb) == 1 else mb
    unclear = False
    for row, k in zip(br, mb):
        have = sum(1 for b in row if np.isfinite(b))
        if have == 0 and k == -1 or 0 < have < k:
            unclear = True          # no break for an offset cannot be prescribed; for the search beside prescribed breaks see P15
        elif have > k:
            return "contradiction"
    return None if unclear else "fits"


def run(case):
    res = Result()
    profs, m = float_data()
    levels = len(p13.LEV)
    nos = [p["no"] for p in profs]
    flags = FLAGS[case["flags"]]
    order = sorted(set(flags) - {0})
    mb = case["max"]
    with pipe.world() as w:
        cfg = w.config(**p13.SCALES)
        pipe.put_float(cfg, profs, levels)
        pipe.write_mapped(cfg, profs, m, [p13.mapping_errors(j) for j in range(N)], levels)
        target = pipe.path(cfg, "cal")
        for i, br in enumerate(breaks_of(case["rows"], case["cols"], nos, flags, order)):
            want = verdict(order, mb, br)
            if want is None or i % case["thin"]:
                continue
            pipe.put_series(cfg, flags, nos, max_breaks=mb, breaks=br or ())
            if os.path.exists(target):
                os.remove(target)
            if i % 2:
                pipe.savemat(target, {q: np.full((levels, N), 35.0) for q in SHAPES} | {q: np.ones((1, N)) for q in ROWS} | {"PROFILE_NO": [nos], "fcoef": [1.0], "fbreaks": [5.0]})
            what = "flags %s, at most %s breaks, prescribed %s" % (flags, mb, br)
            try:
                pipe.do_fit(cfg)
            except Exception as e:
                res.bad("%s: %s raised %s: %s" % (what, want, type(e).__name__, e))
                return res
            res.count("evaluations")
            res.nontrivial(len(order), mb, str(br))
            c = pipe.read(target)
            bad = [q for q in SHAPES if np.asarray(c[q]).shape != (levels, N)] + [q for q in ROWS if np.asarray(c[q]).shape != (1, N)]
            if bad:
                res.bad("%s: shape of %s" % (what, bad))
            elif np.ravel(c["PROFILE_NO"]).tolist() != nos:
                res.bad("%s: profile numbers %s" % (what, np.ravel(c["PROFILE_NO"])))
            elif want == "contradiction":
                res.count("contradictions")
                filled = [q for q in SHAPES + ROWS if np.isfinite(c[q]).any()] + [q for q in ("fcoef", "fbreaks") if np.size(c[q])]
                if filled:
                    res.bad("%s is contradictory, but %s are given" % (what, filled))
            else:
                used = [j for j in range(N) if flags[j] and np.isfinite(m[j]).any()]
                if not np.isfinite(c["pcond_factor"][0, used]).all() or not np.isfinite(c["cal_SAL"][:, used]).any(0).all():
                    res.bad("%s is consistent, but not all series are calibrated: %s" % (what, c["pcond_factor"]))
                if any(np.isfinite(c["pcond_factor"][0, j]) for j in range(N) if not flags[j]):
                    res.bad("%s: unused profiles are calibrated" % what)
                k = mb if len(mb) == len(order) else [mb[0]] * len(order)
                given = [[b for b in r if np.isfinite(b)] for r in br or []]
                if br and all(len(g) == x for g, x in zip(given, k)) and not np.array_equal(np.ravel(c["fbreaks"]), sum(given, [])):
                    res.bad("%s: fitted with breaks %s" % (what, np.ravel(c["fbreaks"])))
            if res.problems:
                return res
    return res
