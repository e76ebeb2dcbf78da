"""P20: every node of a topography window has the elevation stored for its latitude and longitude."""
import os

import numpy as np

import world as W
from engine import Result

PROP = "P20"
LEVEL = "exploration"
RULE = ("one case = one south edge with all west edges, window sizes and longitude notations of the alphabet; an evaluation is one window, all its nodes compared; "
        "non-trivial = distinct (rows, columns, seam crossed, pole touched, notation) of a window")
ASSUMPTIONS = ["tbase.int holds 2160 rows from 90 N to 89 55' S of 4320 little-endian int16 from 0 E"]


def value(row, col):
    return ((row * 4320 + col) * 40503 + (row >> 3) * 977) % 65536 - 32768


DIR = None


def setup(tier):
    global DIR
    DIR = os.path.join(os.environ["OWC_SCRATCH"], "topo")
    os.makedirs(DIR)
    W.write_topo(DIR + "/tbase.int", value)


FRAC = [0.0, 1 / 24, 1 / 12, 0.21]


def cases(tier):
    south = [-91.0, -90.0, -89.9583, -89.5, -60.04, -30.0, -1.0, -0.5, 0.0, 0.25, 33.3, 59.99, 86.0, 88.0, 88.96, 89.0, 89.97]
    if tier == "thorough":
        south += list(np.round(np.arange(-88, 88, 7.37), 4))
    for s in south:
        yield {"south": s, "tier": tier}


def run(case):
    from pyowc.data.fetchers import get_topo_grid
    res = Result()
    cfg = {"CONFIG_DIRECTORY": DIR}
    west = [-180.0, -90.5, -3.0, -2.0, -1.02, -1.0, -0.04, 0.0, 0.04, 1.0, 90.21, 177.5, 178.0, 179.96, 180.0, 181.0, 269.9,
            355.0, 357.0, 357.96, 358.0, 358.5, 359.0, 359.92, 360.0, 361.0, 400.0]
    if case["tier"] == "thorough":
        west += list(np.round(np.arange(-179, 400, 11.3), 3))
    sizes = [(2.0, 2.0), (1.04, 2.0), (0.5, 3.21)] if case["tier"] == "quick" else [(2.0, 2.0), (1.04, 2.0), (0.5, 3.21), (4.0, 0.1), (2.3, 6.7)]
    for w in west:
        for dlat, dlon in sizes:
            s, n, e = case["south"], case["south"] + dlat, w + dlon
            if n <= -90 + 1 / 12 or s > 89.99:
                continue
            res.count("evaluations")
            elev, lon, lat = (np.asarray(a, float) for a in get_topo_grid(w, e, s, n, cfg))
            tag = "window %r..%r, %r..%r" % (w, e, s, n)
            if not (elev.ndim == 2 and elev.shape == lon.shape == lat.shape and elev.size):
                res.bad("%s: shapes %s %s %s" % (tag, elev.shape, lon.shape, lat.shape))
                break
            lo, la = lon[0], lat[:, 0]
            if not (np.allclose(lon, lo[None, :], atol=1e-9) and np.allclose(lat, la[:, None], atol=1e-9)
                    and np.allclose(np.diff(lo), 1 / 12, atol=1e-9) and np.allclose(np.diff(la), -1 / 12, atol=1e-9)
                    and np.allclose(lo * 12, np.round(lo * 12), atol=1e-6) and np.allclose(la * 12, np.round(la * 12), atol=1e-6)):
                res.bad("%s: not the regular grid" % tag)
                break
            top, bottom = min(n, 90.0), max(s, -90 + 1 / 12)
            t = 1e-9
            turn = 360 * round((lo[0] - w) / 360)
            if not (lo[0] - turn <= w + t and lo[-1] - turn >= e - t and la[0] >= top - t and la[-1] <= bottom + t
                    and lo[0] - turn >= w - 2.01 / 12 and lo[-1] - turn <= e + 2.01 / 12 and la[0] <= top + 2.01 / 12 and la[-1] >= bottom - 2.01 / 12):
                res.bad("%s: nodes from %r..%r, %r..%r do not cover it" % (tag, lo[0], lo[-1], la[-1], la[0]))
                break
            rows = np.round((90 - la) * 12).astype(int)
            cols = np.mod(np.round(lo * 12).astype(int), 4320)
            if rows.min() < 0 or rows.max() > 2159:
                res.bad("%s: latitude outside the file" % tag)
                break
            want = value(rows[:, None], cols[None, :])
            if not np.array_equal(want, elev):
                i, j = np.argwhere(want != elev)[0]
                res.bad("%s: node lat %r lon %r has %r instead of %r (%d of %d nodes wrong)" % (
                    tag, la[i], lo[j], elev[i, j], want[i, j], int((want != elev).sum()), want.size))
                break
            res.count("nodes_compared", want.size)
            res.nontrivial(elev.shape, bool(np.any(np.diff(cols) < 0)), n >= 90, s <= -90, w < 0, e > 360)
        if res.problems:
            break
    return res
