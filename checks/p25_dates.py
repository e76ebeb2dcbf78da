"""P25: every calendar date becomes its decimal year; malformed dates become 0; elements are independent."""
import calendar
import itertools

import numpy as np

import world as W
from engine import Result

PROP = "P25"
LEVEL = "exploration"
RULE = ("one case = all days of one year (1850-2100) in every notation, all minutes of one day, or one block of malformed "
        "variants placed at every position of an array; an evaluation is one converted date; non-trivial = distinct decimal year")
ASSUMPTIONS = ["29 February is counted like 1 March (365-day year), as the published toolbox does",
               "dates given as floats have 14 digits (8 to 14 digits as integers or strings)"]

MINUTE_DAYS = [(1850, 1, 1), (1999, 12, 31), (2000, 2, 28), (2000, 2, 29), (2000, 3, 1), (2024, 6, 30), (2100, 12, 31)]


def cases(tier):
    for y in range(1850, 2101):
        yield {"kind": "year", "year": y}
    days = list(MINUTE_DAYS)
    if tier == "thorough":
        days += [(y, m, d) for y in (1950, 2011, 2012) for m in range(1, 13) for d in (1, 15, calendar.monthrange(y, m)[1])]
    for d in days:
        yield {"kind": "minutes", "day": list(d)}
    for pos in range(3 if tier == "quick" else 5):
        yield {"kind": "bad", "pos": pos}
    yield {"kind": "order"}


def convert(values):
    from pyowc.utilities import change_dates
    return change_dates(values)


def expect(y, m, d, h=0, mi=0):
    cum = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
    return y + (cum[m - 1] + d - 1 + h / 24 + mi / 1440) / 365


def compare(res, values, want, label):
    got = np.asarray(convert(values), float).ravel()
    res.count("evaluations", len(want))
    if got.shape != (len(want),):
        res.bad("%s: %d results for %d dates" % (label, got.size, len(want)))
        return
    bad = np.flatnonzero(~(np.abs(got - np.asarray(want)) <= 1e-9))
    if bad.size:
        i = bad[0]
        res.bad("%s: date %r became %r instead of %r (%d of %d wrong)" % (label, values[i], got[i], want[i], bad.size, len(want)))


def run(case):
    res = Result()
    if case["kind"] == "year":
        y = case["year"]
        days = [(m, d) for m in range(1, 13) for d in range(1, calendar.monthrange(y, m)[1] + 1)]
        for h, mi, s in ((0, 0, 0), (23, 59, 59), (12, 30, 0), (0, 59, 59), (1, 0, 1)):
            want = [expect(y, m, d, h, mi) for m, d in days]
            full = [int("%04d%02d%02d%02d%02d%02d" % (y, m, d, h, mi, s)) for m, d in days]
            compare(res, np.array(full, float), want, "floats")
            compare(res, np.array(full, np.int64), want, "integers")
            compare(res, [str(v) for v in full], want, "strings")
            compare(res, np.array([v // 100 for v in full], np.int64), want, "no seconds")
            compare(res, np.array([v // 10000 for v in full], np.int64), [expect(y, m, d, h) for m, d in days], "no minutes")
        compare(res, np.array([int("%04d%02d%02d" % (y, m, d)) for m, d in days], np.int64), [expect(y, m, d) for m, d in days],
                "no hours")
        res.nontrivial(y)
    elif case["kind"] == "minutes":
        y, m, d = case["day"]
        t = list(itertools.product(range(24), range(60)))
        want = [expect(y, m, d, h, mi) for h, mi in t]
        compare(res, np.array([int("%04d%02d%02d%02d%02d00" % (y, m, d, h, mi)) for h, mi in t], float), want, "minutes")
        res.nontrivial(*case["day"])
    elif case["kind"] == "bad":
        good = ["20050315123000", "19991231235900", "18500101000000", "21001231000000", "20000229120000"]
        bad = ["", "1", "2005", "200501", "2005x115", "abcdefgh", "20050015000000", "20051315000000", "20059915000000",
               "20050100000000", "20050132000000", "20050199000000", "0", "nan", "-20050101000000", "20050115xx", "2005011512yy"]
        for b in bad:
            for reps in (1, 2):
                values = list(good)
                values[case["pos"]:case["pos"]] = [b] * reps
                want = [W.decimal_year(g) for g in good]
                want[case["pos"]:case["pos"]] = [0.0] * reps
                compare(res, values, want, "malformed %r" % b)
            compare(res, [b], [0.0], "malformed %r alone" % b)
        for b in (0.0, np.nan, 1.0, 20051315000000.0, 20050132000000.0, 20050000000000.0):
            values = np.array([float(g) for g in good])
            values = np.insert(values, case["pos"], b)
            want = [W.decimal_year(g) for g in good]
            want.insert(case["pos"], 0.0)
            compare(res, values, want, "malformed float %r" % b)
        res.nontrivial("bad", case["pos"])
    else:
        base = [20050315123000, 19991231235900, 18500101000000, 20051332000000, 20000229120000]
        for perm in itertools.permutations(base):
            compare(res, np.array(perm, float), [0.0 if v == 20051332000000 else W.decimal_year(v) for v in perm], "order")
        compare(res, np.array([]), [], "empty")
        from pyowc.utilities import cal2dec
        for m in range(12):
            for d in (1, 15, 28):
                for h in range(24):
                    res.count("evaluations")
                    w = (expect(2001, m + 1, d, h, 7) - 2001) * 365
                    if abs(cal2dec(m, d, h, 7) - w) > 1e-6:
                        res.bad("cal2dec(%d,%d,%d,7) = %r instead of %r" % (m, d, h, cal2dec(m, d, h, 7), w))
        res.nontrivial("order")
    return res
