"""P18: the boxes searched are the 5 by 5 cells around the float, everywhere on the globe."""
import numpy as np

import world as W
from engine import Result

PROP = "P18"
LEVEL = "exploration"
RULE = ("one case = one latitude of the grid with all longitudes of the grid (whole and half degrees, all 10 degree borders, 0.02 to either side of them); "
        "an evaluation is one position; non-trivial = distinct set of boxes")
ASSUMPTIONS = ["positions less than 0.02 degrees south or west of a cell border are left out (a position on a border belongs to the cell north/east of it)",
               "float longitudes are in [0, 360)"]


def axis(lo, hi, step):
    v = set(np.round(np.arange(lo, hi + 1e-9, step), 6))
    for b in range(int(lo), int(hi) + 1, 10):
        v |= {round(b + o, 6) for o in (-0.03, -0.02, 0.0, 0.02, 0.03, 5.0, -5.0, 4.98, 5.02)}
    return sorted(float(x) for x in v if lo <= x <= hi)


def cases(tier):
    for lat in axis(-90, 90, 2.5 if tier == "quick" else 0.5):
        yield {"lat": lat, "step": 5.0 if tier == "quick" else 0.5}


def cell(lat, lon):
    """(row from the north, column); a border belongs to the north / east"""
    row = 17 - int(np.floor((lat + 90.0) / 10.0 + 1e-9))
    return row, int(np.floor((lon % 360) / 10.0 + 1e-9)) % 36


def run(case):
    from pyowc.core.finders import find_25boxes
    res = Result()
    table = np.zeros((648, 4))
    for i in range(648):
        table[i] = [1000 + 7 * i, i % 2, (i // 2) % 2, (i // 4) % 2]
    keep = table.copy()
    lat = case["lat"]
    for lon in axis(0, 359.99, case["step"]):
        res.count("evaluations")
        row, col = cell(lat, lon)
        want = set()
        for r in range(row - 2, row + 3):
            for c in range(col - 2, col + 3):
                if 0 <= r <= 17:
                    want.add(tuple(keep[(c % 36) * 18 + r]))
        if lat >= 89.98:        # on the pole itself the row is the one south of it
            want = {tuple(keep[(c % 36) * 18 + r]) for r in range(0, 3) for c in range(col - 2, col + 3)}
            alt = {tuple(keep[(c % 36) * 18 + r]) for r in range(0, 2) for c in range(col - 2, col + 3)}
        else:
            alt = want
        got = np.asarray(find_25boxes(lon, lat, {"la_wmo_boxes": table}), float)
        rows = [tuple(r) for r in got if np.isfinite(r[0])]
        if len(set(rows)) != len(rows):
            res.bad("lat %r lon %r: a box comes twice" % (lat, lon))
        elif set(rows) not in (want, alt):
            res.bad("lat %r lon %r: boxes missing %s, wrong %s" % (lat, lon, sorted(want - set(rows))[:4], sorted(set(rows) - want)[:4]))
        else:
            res.nontrivial(sorted(rows))
        if len(res.problems) > 3:
            break
    if not np.array_equal(table, keep):
        res.bad("the box table was changed")
    return res
