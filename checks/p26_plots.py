"""P26: diagnostic plots show the data they are given, for every choice of limits."""
import itertools
import logging
import math
import os
import shutil
import tempfile
import warnings

import numpy as np

import pipe
import p13_factor as p13
import p16_levels as p16
from engine import Result
from util import same

PROP = "P26"
LEVEL = "exploration"
TECHNIQUE = "exhaustive exploration of limits, numbers of levels, patterns of missing data and sequences of plots on the real plotting code, with the content of every saved figure compared with the data"
NOTE = "All combinations within stated bounds; the content of a figure (lines, error bars, filled contours, annotations, axes) is read at the moment it is saved."
RULE = ("one case = one small float with every combination of limits and numbers of levels (family 'series'), every pattern of missing levels (family 'anomaly'), "
        "or one sequence of complete diagnostics in one process (family 'all'); an evaluation is one saved figure; non-trivial = distinct content")
ASSUMPTIONS = ["non-interactive matplotlib backend",
               "where the level next to the nearest one is missing, a series may show the nearest salinity",
               "coastline is a synthetic shapefile"]
BATCH = 1
NAN = np.nan
MAGIC = {"png": b"\x89PNG", "pdf": b"%PDF", "eps": b"%!PS", "svg": b"<?xml"}


# ------------------------------------------------------------------ looking at figures
class Look:
    """content of every figure at the moment it is saved"""

    def __enter__(self):
        import matplotlib
        matplotlib.use("Agg")
        logging.getLogger("matplotlib").setLevel(logging.ERROR)
        import matplotlib.pyplot as plt
        from matplotlib.axes import Axes
        from matplotlib.figure import Figure
        self.saved = []
        self.plt, self.Figure, self.Axes = plt, Figure, Axes
        self.orig = Figure.savefig, Axes.contourf, plt.show
        look = self

        def savefig(fig, fname, *a, **k):
            look.saved.append((os.path.abspath(str(fname)), look.content(fig)))
            k["dpi"] = 12
            k.pop("bbox_inches", None)
            return look.orig[0](fig, fname, *a, **k)

        def contourf(ax, *a, **k):
            if len(a) >= 3:
                ax.__dict__.setdefault("_seen", []).append([np.ma.filled(np.ma.asarray(v, float), NAN) for v in a[:3]])
            return look.orig[1](ax, *a, **k)
        Figure.savefig, Axes.contourf = savefig, contourf
        plt.show = lambda *a, **k: None
        plt.close("all")
        return self

    def __exit__(self, *a):
        self.Figure.savefig, self.Axes.contourf, self.plt.show = self.orig
        self.plt.close("all")

    @staticmethod
    def content(fig):
        out = []
        for ax in fig.axes:
            num = lambda v: np.array(np.ma.filled(np.ma.asarray(v, float), NAN), float).ravel()
            lines = [(str(l.get_label()), num(l.get_xdata(orig=True)), num(l.get_ydata(orig=True))) for l in ax.lines]
            bars = []
            for c in ax.containers:
                for col in getattr(c, "lines", [None, None, ()])[2]:
                    bars += [np.asarray(s, float) for s in col.get_segments()]
            fills = [np.asarray(p.vertices, float) for c in ax.collections if type(c).__name__ in ("PolyCollection", "FillBetweenPolyCollection") for p in c.get_paths()]
            out.append({"title": ax.get_title(), "lines": lines, "bars": bars, "fills": fills, "contours": ax.__dict__.get("_seen", []),
                        "texts": [(t.get_text(), tuple(t.xy) if hasattr(t, "xy") else None) for t in ax.texts], "xlim": ax.get_xlim(), "ylim": ax.get_ylim()})
        return out


def has_line(axes, x, y, label=None, tol=1e-9):
    x, y = np.ravel(x).astype(float), np.ravel(y).astype(float)
    for a in axes:
        for lab, u, v in a["lines"]:
            if (label is None or lab == label) and len(u) == len(x) and len(v) == len(y) and same(u, x, tol) and same(v, y, tol):
                return True
    return False


def labelled(axes, label):
    return [(u, v) for a in axes for lab, u, v in a["lines"] if lab == label]


def file_problem(path, fmt):
    if not os.path.isfile(path):
        return "%s is not there" % os.path.basename(path)
    with open(path, "rb") as f:
        head = f.read(8)
    if not head.startswith(MAGIC[fmt]):
        return "%s is not in format %s" % (os.path.basename(path), fmt)
    return None


# ------------------------------------------------------------------ cases
def setup(tier):
    pipe.shared_topo()


def cases(tier):
    big = tier == "thorough"
    cells = p16.CELLS
    k = 0
    yield {"family": "all", "fmt": "png", "order": ["L"]}
    for i in (0, 2, 4, 5, 8, 9):
        n = p16.FLOATS[i][0]
        for combo in itertools.product(range(len(cells)), repeat=2):
            k += 1
            if not big and k % 6:
                continue
            yield {"family": "series", "float": i, "cells": [cells[c] for c in combo] + ["all"] * max(0, n - 2), "thin": 1 if big else 5, "fmt": "png"}
    for fmt in MAGIC:
        yield {"family": "series", "float": 2, "cells": ["all", "gap", "shallow", "all"], "thin": 27, "fmt": fmt}
    for i in range(p16.SMALL, len(p16.FLOATS)):                 # floats of the size of real ones
        n = p16.FLOATS[i][0]
        yield {"family": "series", "float": i, "cells": [cells[(3 * i + k * k) % len(cells)] if k % 3 else "all" for k in range(n)], "thin": 6 if big else 29, "fmt": "png"}
    for size in ((90, 40), (12, 150), (35, 300), (5, 1050)):
        yield {"family": "anomaly", "size": size}
    for first in range(4):
        yield {"family": "anomaly", "first": first, "thin": 1 if big else 3}
    for fmt in ("png", "pdf") if not big else MAGIC:
        for order in (("A",), ("A", "B"), ("B", "A"), ("A", "A"), ("C", "A"), ("B", "C"), ("S",), ("N",), ("S", "A"), ("N", "S", "O"), ("A", "N"), ("U",), ("R", "U")) + ((("D", "A", "C"), ("C", "B", "A")) if big else (("D",),)):
            if fmt != "png" and len(order) == 1 and not big:
                continue
            yield {"family": "all", "fmt": fmt, "order": list(order)}


# ------------------------------------------------------------------ salinity series on theta levels
def usable_rows(data, k, lim):
    sal, ptmp, pres, la = data
    rows = []
    for i in range(pres.shape[0]):
        if math.isnan(la[i, k]) or math.isnan(ptmp[i, k]):
            continue
        if not p16.usable(ptmp[i, k], lim[0], lim[1]):
            continue
        if not math.isnan(pres[i, k]) and not p16.usable(pres[i, k], lim[2], lim[3]):
            continue
        rows.append(i)
    return rows


def acceptable(v, th, rows, t):
    """values of the column v that may be shown for the theta level t; None: no value"""
    if not rows or not min(th[rows]) < t < max(th[rows]):
        return [NAN]
    near = min(rows, key=lambda i: (abs(th[i] - t), i))
    inside = set(rows)
    cross = []
    for i, j in zip(range(len(th) - 1), range(1, len(th))):
        if i in inside and j in inside and (th[i] - t) * (th[j] - t) <= 0 and th[i] != th[j] and near in (i, j):
            cross.append((i, j))
    good = [(i, j) for i, j in cross if not (math.isnan(v[i]) or math.isnan(v[j]))]
    if good and len(good) == len(cross):
        return [v[i] + (v[j] - v[i]) * (t - th[i]) / (th[j] - th[i]) for i, j in good]
    vals = [v[near]] + [v[i] + (v[j] - v[i]) * (t - th[i]) / (th[j] - th[i]) for i, j in good]
    for i, j in zip(rows, rows[1:]):            # across a gap
        if (th[i] - t) * (th[j] - t) <= 0 and th[i] != th[j]:
            vals.append(v[i] + (v[j] - v[i]) * (t - th[i]) / (th[j] - th[i]))
    return vals


def fits(got, vals):
    return any((math.isnan(got) and math.isnan(v)) or abs(got - v) <= 1e-9 for v in vals)


def run_series(case, res, out):
    from pyowc.core.finders import find_10thetas
    from pyowc.plot.plots import sal_var_plot
    data = p16.build({"float": case["float"], "cells": case["cells"], "n": len(case["cells"])})
    sal, ptmp, pres, la = data
    m, n = pres.shape
    r = np.arange(m)[:, None] + 1.7 * np.arange(n)[None, :]
    mp = np.where(np.isnan(la), NAN, 34.02 + 0.11 * ptmp + 0.03 * np.sin(r))
    cal = sal + 0.02 + 0.005 * np.cos(r)
    mp_err, cal_err = np.where(np.isnan(mp), NAN, 0.01 + 0.004 * np.sin(r) ** 2), np.where(np.isnan(cal), NAN, 0.006 + 0.003 * np.cos(r) ** 2)
    nos = np.array([3.0, 4.0, 8.0, 9.0, 15.0, 16.0][:n]) if n <= 6 else 2.0 + np.arange(n) + (np.arange(n) // 7)
    wrap = lambda v: np.array([[v]]) if v is not None else np.zeros((0, 0))
    cfg = {"FLOAT_PLOTS_DIRECTORY": out, "FLOAT_PLOTS_FORMAT": case["fmt"]}
    combos = list(itertools.product(p16.T_LT, p16.T_GT, p16.P_LT, p16.P_GT))
    for c, lim in enumerate(combos):
        if c % case["thin"] and c not in (1, 3, 9, 12, 27, 36):
            continue
        levels = (1, 2, 3, 10)[c // 2 % 4] if case["thin"] != 5 or c % 9 == 0 else (1, 2)[c % 2]
        share = (0.5, 0.0, 1.0)[c % 3]
        tag = "cells %s, limits %s, %d levels" % (case["cells"], lim, levels)
        L = [wrap(v) for v in lim]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            t = np.ravel(find_10thetas(sal.copy(), ptmp.copy(), pres.copy(), la.copy(), *[v.copy() for v in L], share)[0])
        name = "39%05d" % (c + 100 * case["float"])
        with Look() as look:
            sal_var_plot(levels, sal.copy(), pres.copy(), ptmp.copy(), mp.copy(), mp_err.copy(), la.copy(), cal.copy(), cal_err.copy(),
                         L + [share], nos[None, :].copy(), name, cfg)
        figs = dict(look.saved)
        rows = [usable_rows(data, k, lim) for k in range(n)]
        for i in range(levels):
            f = os.path.join(out, "%s_salinity_variance_%d.%s" % (name, i + 1, case["fmt"]))
            res.count("evaluations")
            bad = file_problem(f, case["fmt"])
            if not bad and os.path.abspath(f) not in figs:
                bad = "figure %d was not saved by matplotlib" % (i + 1)
            if bad:
                res.bad("%s: %s" % (tag, bad))
                return
            fig = figs[os.path.abspath(f)]
            if len(fig) != 1:
                res.bad("%s: %d axes in one figure" % (tag, len(fig)))
                return
            for label, v, e in (("uncalibrated float", sal, None), ("mapped salinity", mp, mp_err), ("calibrated float w/ 1xerr", cal, cal_err)):
                got = labelled(fig, label)
                if len(got) != 1 or not same(got[0][0], nos):
                    res.bad("%s: level %d: %s" % (tag, i + 1, "no series '%s'" % label if not got else "series '%s' at %s" % (label, got[0][0])))
                    return
                y = got[0][1]
                for k in range(n):
                    ok = acceptable(np.where(np.isnan(la[:, k]), NAN, v[:, k]), ptmp[:, k], rows[k], t[i]) if not math.isnan(t[i]) else [NAN]
                    if not fits(y[k], ok):
                        res.bad("%s: level %d (theta %.4f), profile %g: %s is %r, not %s" % (tag, i + 1, t[i], nos[k], label, y[k], ok))
                        return
                    if e is None or math.isnan(y[k]):
                        continue
                    oke = acceptable(np.where(np.isnan(la[:, k]), NAN, e[:, k]), ptmp[:, k], rows[k], t[i])
                    if label == "mapped salinity":
                        spans = [s for a in fig for s in a["bars"] if len(s) == 2 and abs(s[0][0] - nos[k]) < 1e-9 and abs(s[1][0] - nos[k]) < 1e-9]
                        if not any(fits(abs(s[1][1] - s[0][1]) / 2, oke) and abs((s[0][1] + s[1][1]) / 2 - y[k]) < 1e-9 for s in spans):
                            res.bad("%s: level %d, profile %g: error bars of the mapped salinity %s, not %s" % (tag, i + 1, nos[k], [s.tolist() for s in spans], oke))
                            return
                    else:
                        ys = [p[1] for a in fig for poly in a["fills"] for p in poly if abs(p[0] - nos[k]) < 1e-9]
                        if not ys or not fits(max(ys) - y[k], oke) or not fits(y[k] - min(ys), oke):
                            res.bad("%s: level %d, profile %g: band of the calibrated salinity %s, not %s +- %s" % (tag, i + 1, nos[k], ys[:4], y[k], oke))
                            return
            res.nontrivial(np.round(np.nan_to_num(labelled(fig, "uncalibrated float")[0][1]), 9).tolist())
        extra = set(figs) - {os.path.abspath(os.path.join(out, "%s_salinity_variance_%d.%s" % (name, i + 1, case["fmt"]))) for i in range(levels)}
        if extra:
            res.bad("%s: unexpected files %s" % (tag, sorted(map(os.path.basename, extra))))
            return


# ------------------------------------------------------------------ anomalies
def anomaly(sal, ptmp):
    base = np.arange(1, 301) * 0.1
    out = np.full((300, sal.shape[1]), NAN)
    for k in range(sal.shape[1]):
        ok = ~np.isnan(sal[:, k]) & ~np.isnan(ptmp[:, k])
        if ok.sum() >= 3:
            o = np.argsort(ptmp[ok, k])
            x, y = ptmp[ok, k][o], sal[ok, k][o]
            out[:, k] = np.interp(base, x, y, left=NAN, right=NAN)
    med = np.full(300, NAN)
    for i in range(300):
        v = np.sort(out[i][~np.isnan(out[i])])
        if len(v):
            med[i] = (v[(len(v) - 1) // 2] + v[len(v) // 2]) / 2
    return base, out - med[:, None]


def anomaly_problem(figs, sal, ptmp, nos, bounds, title, name, fmt, out):
    base, want = anomaly(sal, ptmp)
    for b in bounds:
        f = os.path.join(out, "%s_%s_salinity_anomaly_%s.%s" % (name, title, b, fmt))
        bad = file_problem(f, fmt)
        if bad:
            return bad
        fig = figs[os.path.abspath(f)]
        main = [a for a in fig if a["contours"]]
        if len(main) != 1 or not np.allclose(main[0]["ylim"], b):
            return "anomaly between %s: %d axes with contours, theta %s" % (b, len(main), main and main[0]["ylim"])
        if len(fig) > 2:
            return "anomaly between %s: %d axes instead of the plot and its scale" % (b, len(fig))
        words = main[0]["title"]
        if name not in words or title not in words or not all("%g" % v in words for v in b):
            return "anomaly between %s: title %r" % (b, words)
        for x, y, z in main[0]["contours"]:
            if not (same(x.ravel(), np.ravel(nos)) and same(y.ravel(), base, 1e-9)):
                return "anomaly between %s: drawn at %s" % (b, x)
            if z.shape != want.shape or not same(z, want, 1e-9):
                return "anomaly between %s: %s" % (b, "wrong values")
    return None


def run_large(case, res, out):
    from pyowc.plot.plots import sal_anom_plot
    n, m = case["size"]
    r, kk = np.arange(m)[:, None], np.arange(n)[None, :]
    th0 = 1.03 + 14.2 * np.exp(-4.0 * r / m) + 0.11 * np.sin(1 + 2.4 * kk) + 0.02 * np.sin(0.37 * r * kk)
    s0 = 34.0 + 0.09 * th0 + 0.05 * np.sin(3 * kk + 0.7 * r)
    nos = (1.0 + np.arange(n) + np.arange(n) // 5)[None, :]
    cfg = {"FLOAT_PLOTS_DIRECTORY": out, "FLOAT_PLOTS_FORMAT": "png", "THETA_BOUNDS": [[0, 5], [5, 20], [2, 9]]}
    for v in range(4):
        sal, th = s0.copy(), th0.copy()
        if v & 1:
            for k in range(n):
                sal[m - (k * k + v) % (m // 2):, k] = NAN
                th[: (5 * k) % (m // 3), k] = NAN
        if v & 2:
            sal[:, n // 2], th[1:, n // 3] = NAN, NAN
            sal[2:, n - 1] = NAN
        name = "45%05d" % v
        with Look() as look:
            sal_anom_plot(sal.copy(), th.copy(), nos.copy(), cfg, name, ("uncalibrated", "calibrated")[v % 2])
        res.count("evaluations", 3)
        bad = anomaly_problem(dict(look.saved), sal, th, nos, cfg["THETA_BOUNDS"], ("uncalibrated", "calibrated")[v % 2], name, "png", out)
        if bad:
            return res.bad("size %s, missing data %d: %s" % (case["size"], v, bad))
        res.nontrivial(n, m, v)


def run_anomaly(case, res, out):
    from pyowc.plot.plots import sal_anom_plot
    if "size" in case:
        return run_large(case, res, out)
    m, n = 7, 4
    r = np.arange(m)[:, None]
    kk = np.arange(n)[None, :]
    th0 = 1.03 + 14.2 * np.exp(-0.55 * r) + 0.11 * np.sin(1 + 2.4 * kk) + 0.02 * r
    s0 = 34.0 + 0.09 * th0 + 0.05 * np.sin(3 * kk + 0.7 * r)
    nos = np.array([[1.0, 2.0, 5.0, 6.0]])
    bounds = [[0, 5], [5, 20]]
    cfg = {"FLOAT_PLOTS_DIRECTORY": out, "FLOAT_PLOTS_FORMAT": "png", "THETA_BOUNDS": bounds}
    pats = [(), (0,), (6,), (2, 3), (0, 1, 2, 3), tuple(range(7)), tuple(range(5))]
    for c, combo in enumerate(itertools.product(range(len(pats)), repeat=2)):
        for what in ("sal", "ptmp", "both"):
            if (c + len(what)) % case["thin"]:
                continue
            sal, th = s0.copy(), th0.copy()
            for j, p in ((case["first"], combo[0]), ((case["first"] + 1 + c % 3) % n, combo[1])):
                if what != "ptmp":
                    sal[list(pats[p]), j] = NAN
                if what != "sal":
                    th[list(pats[p]), j] = NAN
            title = ("uncalibrated", "calibrated")[c % 2]
            name = "44%05d" % c
            with Look() as look:
                sal_anom_plot(sal.copy(), th.copy(), nos.copy(), cfg, name, title)
            res.count("evaluations", 2)
            bad = anomaly_problem(dict(look.saved), sal, th, nos, bounds, title, name, "png", out)
            if bad:
                res.bad("missing %s: patterns %s: %s" % (what, combo, bad))
                return
            res.nontrivial(np.isnan(anomaly(sal, th)[1]).tolist())


# ------------------------------------------------------------------ complete diagnostics
def coastline(root):
    import shapefile
    d = os.path.join(root, "coastline")
    os.makedirs(d, exist_ok=True)
    with shapefile.Writer(os.path.join(d, "ne_10m_coastline.shp"), shapeType=shapefile.POLYLINE) as w:
        w.field("n", "C")
        for k in range(3):
            w.line([[[10 * k, 10], [10 * k + 5, 20], [10 * k + 9, -20]], [[70 + k, 1], [75, 4]]])
            w.record("c%d" % k)
    d = os.path.join(root, "bathymetry")
    os.makedirs(d, exist_ok=True)
    for k, q in enumerate(["L_0", "K_200", "J_1000", "I_2000", "H_3000", "G_4000", "F_5000", "E_6000", "D_7000", "C_8000", "B_9000"]):
        with shapefile.Writer(os.path.join(d, "ne_10m_bathymetry_%s.shp" % q), shapeType=shapefile.POLYGON) as w:
            w.field("n", "C")
            w.poly([[[k, -k], [k + 30, -k], [k + 30, -k - 40], [k, -k]]])
            w.record("b%d" % k)


FLOATS = {"A": {"nos": [1, 2, 3, 4, 6, 7], "lims": {}, "levels": 2, "dir": ""},
          "B": {"nos": [2, 3, 5, 8, 9], "lims": {"use_theta_gt": np.array([[3.2]])}, "levels": 3, "dir": "sub", "long": 178.9},
          "C": {"nos": [1, 2, 3, 4, 5, 6, 7, 8], "lims": {"use_theta_lt": np.array([[9.0]]), "use_pres_gt": np.array([[150.0]])}, "levels": 1, "dir": "", "part": True},
          "L": {"nos": [k + 1 + k // 6 for k in range(47)], "lims": {}, "levels": 2, "dir": "", "part": True},
          "S": {"nos": [7], "lims": {}, "levels": 2, "dir": ""},
          "N": {"nos": [1, 2, 4, 5], "lims": {}, "levels": 2, "dir": "", "unmapped": True},
          "O": {"nos": [3], "lims": {}, "levels": 1, "dir": "sub", "unmapped": True},
          "U": {"nos": [2, 3, 5, 6, 8], "lims": {}, "levels": 2, "dir": "", "mix": [2, 0, 4, 1, 3]},
          "R": {"nos": [1, 2, 3, 4, 5, 6, 7], "lims": {}, "levels": 1, "dir": "", "part": True, "mix": [6, 5, 4, 3, 2, 1, 0]},
          "D": {"nos": [1, 2, 3, 4], "lims": {"use_theta_lt": np.array([[-5.0]])}, "levels": 2, "dir": ""}}


def run_all(case, res, out):
    from pyowc.plot.dashboard import plot_diagnostics
    from pyowc.core.finders import find_10thetas
    with pipe.world() as w, Look() as look:
        cfg = w.config(FLOAT_PLOTS_DIRECTORY=out, FLOAT_PLOTS_FORMAT=case["fmt"])
        coastline(os.path.join(w.root, "constants"))
        for step, letter in enumerate(case["order"]):
            f = FLOATS[letter]
            name = "39%05d" % (step * 10 + ord(letter))
            for d in ("float_source", "float_mapped", "float_calib"):
                os.makedirs(os.path.join(w.root, d, f["dir"]), exist_ok=True)
            profs, true = p13.build(f["nos"], 1 if letter != "B" else 4)
            levels = len(p13.LEV)
            for k, p in enumerate(profs):
                p["long"] = (f.get("long", p["long"]) + 0.31 * k) % 360
                p["sal"] = p["sal"] + 0.004 * np.sin(k + 0.8 * np.arange(len(p["sal"]))) + 0.001 * step
            if f.get("part"):
                true[3] = np.full_like(true[3], NAN)
                true[1][:4] = NAN
                profs[5]["sal"][2] = NAN
                true[5][2] = NAN
            if f.get("unmapped"):                                   # no reference data around the float
                true = [np.full_like(t, NAN) for t in true]
            errs = [p13.mapping_errors(k) for k in range(len(profs))]
            mix = f.get("mix", range(len(profs)))                   # order of the profiles in the source
            pipe.put_float(cfg, [profs[k] for k in mix], levels, name, f["dir"])
            pipe.write_mapped(cfg, profs, true, errs, levels, name, f["dir"])
            pipe.put_series(cfg, [1] * len(profs), [f["nos"][k] for k in mix], max_breaks=0, name=name, float_dir=f["dir"], **f["lims"])
            pipe.do_fit(cfg, name, f["dir"])
            before = pipe.tree(w.root)
            look.saved.clear()
            plot_diagnostics(f["dir"], name, cfg, f["levels"])
            res.count("evaluations", len(look.saved))
            if pipe.tree(w.root) != before:
                return res.bad("%s: plotting changed %s" % (case["order"], [k for k, v in pipe.tree(w.root).items() if before.get(k) != v]))
            src, m, cal, ser = (pipe.read(pipe.path(cfg, q, name, f["dir"])) for q in ("source", "map", "cal", "series"))
            order = np.argsort(np.ravel(src["PROFILE_NO"]))         # the figures show them in order of their numbers
            for d in (src, cal):
                for q, v in d.items():
                    if v.ndim == 2 and v.shape[1] == len(order) and len(order) > 1 and not q.endswith("breaks"):
                        d[q] = v[:, order]
            bad = judge(dict(look.saved), out, name, case["fmt"], f, cfg, src, m, cal, ser, find_10thetas)
            if bad:
                return res.bad("diagnostics %s, float %s: %s" % (case["order"], letter, bad))
            res.nontrivial(letter, step, case["fmt"])


def wrapped(v):
    v = np.ravel(v).astype(float)
    return np.where(v > 180, v - 360, v)


def judge(figs, out, name, fmt, f, cfg, src, m, cal, ser, find_10thetas):
    names = ["trajectory", "uncalibrated_theta_sal", "calibrated_theta_sal", "salinity_profile"] + ["salinity_variance_%d" % (i + 1) for i in range(f["levels"])]
    nos = np.ravel(src["PROFILE_NO"]).astype(float)
    n = len(nos)
    if n > 1:                                                       # there is no anomaly of a single profile
        names += ["%s_salinity_anomaly_%s" % (t, b) for t in ("uncalibrated", "calibrated") for b in cfg["THETA_BOUNDS"]]
    some = np.isfinite(cal["cal_SAL"]).any()
    if some:
        names.append("salinity_curve")
    fig = {}
    for q in names:
        p = os.path.abspath(os.path.join(out, "%s_%s.%s" % (name, q, fmt)))
        bad = file_problem(p, fmt)
        if bad:
            return bad
        fig[q] = figs[p]
    if len(figs) != len(names):
        return "saved %s instead of %s" % (sorted(map(os.path.basename, figs)), names)
    # positions
    t = fig["trajectory"]
    if len(t) != 1:
        return "trajectory: %d axes" % len(t)
    hist = m["selected_hist"].reshape(-1, 3)
    for label, x, y in (("Float Profiles", src["LONG"], src["LAT"]), ("Climatology", hist[:, 0], hist[:, 1])):
        got = labelled(t, label)
        if len(got) != 1 or not (same(got[0][0], wrapped(x)) and same(got[0][1], np.ravel(y))):
            return "trajectory: %d series '%s', %s" % (len(got), label, got[:1])
        (x0, x1), (y0, y1) = t[0]["xlim"], t[0]["ylim"]
        if any(not (x0 <= u <= x1 and y0 <= v <= y1) for u, v in zip(*got[0]) if u == u and v == v):
            return "trajectory: positions of %s lie outside the limits of the map, %s %s" % (label, t[0]["xlim"], t[0]["ylim"])
    want = {(str(int(nos[i])), round(float(wrapped(src["LONG"])[i]), 6), round(float(np.ravel(src["LAT"])[i]), 6)) for i in range(n) if i % 3 == 0 or i == n - 1}
    got = {(str(int(float(s))), round(float(xy[0]), 6), round(float(xy[1]), 6)) for s, xy in t[0]["texts"] if xy is not None}
    if got != want:
        return "trajectory: profile numbers %s instead of %s" % (sorted(got), sorted(want))
    # levels
    sal, th, pr = (np.asarray(src[q], float) for q in ("SAL", "PTMP", "PRES"))
    lim = [ser[q] for q in ("use_theta_lt", "use_theta_gt", "use_pres_lt", "use_pres_gt", "use_percent_gt")]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        tl, pl, index, var, tlev = find_10thetas(sal.copy(), th.copy(), pr.copy(), m["la_ptmp"].copy(), *lim)
    for q, s in (("uncalibrated_theta_sal", sal), ("calibrated_theta_sal", np.asarray(cal["cal_SAL"], float))):
        if len(fig[q]) != 1:
            return "%s: %d axes" % (q, len(fig[q]))
        for k in range(n):
            if not has_line(fig[q], s[:, k], th[:, k]):
                return "%s: profile %g is not drawn" % (q, nos[k])
            for i in index[:, k][~np.isnan(index[:, k])].astype(int):
                x, y, e = m["la_mapped_sal"][i, k], m["la_ptmp"][i, k], m["la_mapsalerrors"][i, k]
                if not any(len(b) == 2 and np.allclose(b, [[x - e, y], [x + e, y]], atol=1e-9, rtol=0) for a in fig[q] for b in a["bars"]):
                    return "%s: mapped salinity of profile %g at theta %.3f is not drawn" % (q, nos[k], y)
        if sum(1 for a in fig[q] for lab, u, v in a["lines"] if len(u) == sal.shape[0] and sal.shape[0] > 1) != n:
            return "%s: more than the profiles is drawn" % q
        own = {tuple(np.round(np.nan_to_num(np.r_[sal_[:, k], th[:, k]]), 9)): nos[k] for k in range(n) for sal_ in (s,)}
        for ax in fig[q]:
            for lab, u, v in ax["lines"]:
                if len(u) == s.shape[0] > 1 and not lab.startswith("_"):
                    if float(lab) != own[tuple(np.round(np.nan_to_num(np.r_[u, v]), 9))]:
                        return "%s: the legend names profile %g as %s" % (q, own[tuple(np.round(np.nan_to_num(np.r_[u, v]), 9))], lab)
    # profiles
    a = fig["salinity_profile"]
    if len(a) != 4:
        return "salinity_profile: %d axes" % len(a)
    for k in range(n):
        for x, y in ((sal, th), (th, -pr), (sal, -pr)):
            if not has_line(a, x[:, k], y[:, k]):
                return "salinity_profile: profile %g is not drawn" % nos[k]
    if len(np.ravel(tlev)) and not has_line(a, np.ravel(var), np.ravel(tlev)):
        return "salinity_profile: variance is not drawn"
    flat = [(v[0], ax) for ax in range(4) for lab, u, v in a[ax]["lines"] if len(v) == 2 and v[0] == v[1]]
    for lv, sign in ((np.ravel(tl), 1), (np.ravel(pl), -1)):
        for v in lv[np.isfinite(lv)]:
            if sum(1 for g, ax in flat if abs(g - sign * v) < 1e-9) < 2:
                return "salinity_profile: level %g is not marked" % v
    # correction
    if some:
        a = fig["salinity_curve"]
        if len(a) != 2:
            return "salinity_curve: %d axes" % len(a)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            off = np.nanmean(cal["cal_SAL"] - sal, axis=0)
            err = np.nanmean(cal["cal_SAL_err"], axis=0)
        for what, y, e in (("factor", np.ravel(cal["pcond_factor"]), np.ravel(cal["pcond_factor_err"])), ("offset", off, err)):
            if not has_line(a, nos, y):
                return "salinity_curve: no %s over the profiles" % what
            for k in range(n):
                if math.isnan(y[k]) or math.isnan(e[k]):
                    continue
                for mult in (1, 2):
                    if not any(len(b) == 2 and np.allclose(b, [[nos[k], y[k] - mult * e[k]], [nos[k], y[k] + mult * e[k]]], atol=1e-9, rtol=0) for x in a for b in x["bars"]):
                        return "salinity_curve: no error bar of %d x error of the %s of profile %g" % (mult, what, nos[k])
        ok = np.isfinite(np.ravel(cal["sta_mean"]))
        if not has_line(a, nos[ok], np.ravel(cal["sta_mean"])[ok], "1-1 profile fit"):
            return "salinity_curve: one-to-one fit is not drawn"
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            so = np.nanmean(cal["sta_SAL"] - sal, axis=0)
        ok = np.isfinite(so)
        if not has_line(a, nos[ok], so[ok], "1-1 profile fit"):
            return "salinity_curve: offset of the one-to-one fit is not drawn"
    for t_, s in (("uncalibrated", sal), ("calibrated", np.asarray(cal["cal_SAL"], float))):
        bad = n > 1 and anomaly_problem(figs, s, th, nos, cfg["THETA_BOUNDS"], t_, name, fmt, out)
        if bad:
            return t_ + " " + bad
    return None


def run(case):
    res = Result()
    out = tempfile.mkdtemp(prefix="plots", dir=os.environ["OWC_SCRATCH"])
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            {"series": run_series, "anomaly": run_anomaly, "all": run_all}[case["family"]](case, res, out)
    finally:
        shutil.rmtree(out, ignore_errors=True)
    return res
