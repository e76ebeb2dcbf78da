"""Reference model of the mapping of one profile (Owens & Wong 2009), written independently of pyowc."""
import numpy as np

import oracle
import world as W

NAN = np.nan


class Ambiguous(Exception):
    """the published method leaves the answer open for this input"""


def cast_depths(casts, func=W.topo_value):
    for c in casts:
        if "z" not in c:
            c["z"] = W.ocean_depth(c["lat"], c["long"], func)
    return casts


def usable(c):
    ok = np.isfinite(c["pres"]) & np.isfinite(c["ptmp"]) & np.isfinite(c["sal"])
    return ok.any()


def map_profile(p, casts, cfg, func=W.topo_value, used=None):
    """[(mapped, error, noise, signal) or None per level]; casts: those the profile may use.
    A salinity outside 30..40 is returned as it is (the file leaves it out).
    used: a set to which the indices of the casts used at any level are added"""
    n = len(p["pres"])
    none = [None] * n
    if np.isnan(p["lat"]) or np.isnan(p["long"]) or not np.isfinite(p["pres"]).any():
        return none
    cast_depths(casts, func)
    z = W.ocean_depth(p["lat"], p["long"], func)
    target = (p["lat"], p["long"], p["date"], z)
    lon = oracle.wrap_to([c["long"] for c in casts], p["long"])
    sel = []
    for k, (c, x) in enumerate(zip(casts, lon)):
        if oracle.in_ellipse(c["lat"], x, c["z"], target, cfg):
            sel.append((c, x, k))
    if len(sel) > cfg["CONFIG_MAX_CASTS"]:
        raise Ambiguous("more casts than the maximum")
    deepest = np.nanmax(p["pres"]) + cfg["MAP_P_DELTA"]
    sel = [v for v in sel if usable(v[0])]
    out = []
    for i in range(n):
        th, s, q = p["ptmp"][i], p["sal"][i], p["pres"][i]
        if not (np.isfinite(th) and np.isfinite(s) and np.isfinite(q)) or q < cfg["MAP_P_EXCLUDE"]:
            out.append(None)
            continue
        rows = []
        for c, x, k in sel:
            pres = np.asarray(c["pres"], float)
            keep = np.isfinite(pres) & ~(pres > deepest)
            v = oracle.interp_cast(np.asarray(c["ptmp"])[keep], np.asarray(c["sal"])[keep], pres[keep], th, q)
            if not v:
                continue
            if len(v) > 1 and max(a[0] for a in v) - min(a[0] for a in v) > 1e-9:
                raise Ambiguous("two crossings at equal distance")
            if abs(abs(v[0][1] - q) - cfg["MAP_P_DELTA"]) < 1e-9:
                raise Ambiguous("crossing at the allowed pressure difference")
            if abs(v[0][1] - q) < cfg["MAP_P_DELTA"]:
                rows.append((v[0][0], c["lat"], x, W.decimal_year(c["date"]), c["z"], k))
        if len(rows) <= 5:
            out.append(None)
            continue
        r = np.array(rows)
        answer = oracle.map_level(r[:, 0], r[:, 1], r[:, 2], r[:, 3], r[:, 4], target, cfg)
        out.append(answer[:4])
        if used is not None:
            used.update(int(k) for k in r[answer[4], 5])
    return out


def compare(col, want, p, cfg, tol=1e-7):
    """first difference of a mapped column (pipe.columns) from the model's answer, or None"""
    used = any(w is not None for w in want)
    from pipe import SETTINGS
    for i in range(len(col["la_mapped_sal"])):
        w = want[i] if i < len(want) else None
        got = [col[q][i] for q in ("la_mapped_sal", "la_mapsalerrors", "la_noise_sal", "la_signal_sal", "la_ptmp")]
        if w is None:
            if not np.isnan(got[:4]).all():
                return "level %d must not be mapped, got %r" % (i, got)
            continue
        ref = [w[0] if 30 <= w[0] <= 40 else NAN, w[1], w[2], w[3], p["ptmp"][i]]
        for a, b, name in zip(got, ref, ("salinity", "error", "noise variance", "signal variance", "potential temperature")):
            if np.isnan(a) and np.isnan(b):
                continue
            if name == "error" and (np.isnan(b) or b < 1e-5):
                continue
            if not abs(a - b) <= tol * (1 + abs(b)):
                return "level %d: %s %r instead of %r" % (i, name, a, b)
    for q, key in SETTINGS.items():
        ref = float(cfg[key]) if used else NAN
        if not np.array_equal(np.float64(col[q]), np.float64(ref), equal_nan=True):
            return "%s recorded as %r instead of %r" % (q, col[q], ref)
    return None
