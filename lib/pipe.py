"""Settings for the whole pipeline: reference data, floats, running the stages, reading their results."""
import hashlib
import os
import shutil

import numpy as np
from scipy.io import loadmat, savemat

import world as W

NAN = np.nan
PER_LEVEL = ("la_mapped_sal", "la_mapsalerrors", "la_noise_sal", "la_signal_sal", "la_ptmp")
SETTINGS = {"scale_long_large": "MAPSCALE_LONGITUDE_LARGE", "scale_lat_large": "MAPSCALE_LATITUDE_LARGE",
            "scale_long_small": "MAPSCALE_LONGITUDE_SMALL", "scale_lat_small": "MAPSCALE_LATITUDE_SMALL",
            "scale_phi_large": "MAPSCALE_PHI_LARGE", "scale_phi_small": "MAPSCALE_PHI_SMALL",
            "scale_age_large": "MAPSCALE_AGE_LARGE", "scale_age_small": "MAPSCALE_AGE_SMALL",
            "use_pv": "MAP_USE_PV", "use_saf": "MAP_USE_SAF", "p_delta": "MAP_P_DELTA", "p_exclude": "MAP_P_EXCLUDE"}
LEVELS = np.array([10.0, 90.0, 100.0, 260.0, 480.0, 760.0, 1100.0, 1450.0])
HIST_P = np.array([0, 60, 150, 280, 430, 600, 800, 1020, 1260, 1500, 1640.0])
HERE = (-20.3, 70.4)       # near a corner of four boxes
KINDS = ("ctd", "bot", "argo")


def shared_topo(period=None):
    """one topography file for all worlds of this run"""
    name = "topo%s.int" % (period or "")
    path = os.path.join(os.environ["OWC_SCRATCH"], name)
    if not os.path.exists(path):
        W.write_topo(path + ".part%d" % os.getpid(), topo_periodic if period else W.topo_value)
        os.replace(path + ".part%d" % os.getpid(), path)
    return path


def topo_periodic(row, col):
    """repeats every ten degrees of longitude"""
    lat = 90 - row / 12.0
    lon = (col % 120) / 12.0
    return np.round(-3500 - 500 * np.sin(np.radians(36 * lon)) * np.cos(np.radians(5 * lat)) - 250 * np.cos(np.radians(72 * lon)) - 3 * np.abs(lat))


def wobble(i, a=1.0):
    """deterministic, no two alike"""
    return a * np.sin(1.0 + 2.399963 * i)


def hist_cast(i, center=HERE, spread=1.6, dsal=0.0):
    """reference cast number i around the center"""
    lat = center[0] + wobble(i * 1.7 + 0.3, spread)
    lon = center[1] + wobble(i * 2.9 + 1.1, spread)
    date = float(int("20%02d%02d%02d%02d3000" % (i * 5 % 17, 1 + i * 7 % 12, 1 + i * 11 % 28, i % 24)))
    c = W.cast(lat, lon, date, HIST_P[:9 + i % 3], dtheta=wobble(i + 0.7, 0.08), dsal=0.01 * (lat - center[0]) + wobble(3 * i, 0.012) + dsal)
    c["source"] = "59%05d" % i
    return c


def reference(n, center=HERE, spread=1.6, first=0, kinds=KINDS, **kw):
    """{(kind, box): [casts]}"""
    out = {}
    for i in range(first, first + n):
        c = hist_cast(i, center, spread, **kw)
        out.setdefault((kinds[i % len(kinds)], W.box_number(c["lat"], c["long"])), []).append(c)
    return out


def put_reference(w, ref):
    for (kind, box), casts in sorted(ref.items()):
        w.add_reference(kind, box, casts)
    if not ref:
        W.write_boxes(os.path.join(w.root, "constants", "wmo_boxes.mat"), w.flags)


def profile(no, center=HERE, levels=LEVELS, dsal=0.0, dtheta=None, step=0.13):
    """float profile number no on a track through the center"""
    lat = center[0] - 0.35 + step * no
    lon = (center[1] - 0.5 + 1.3 * step * no) % 360.0
    c = W.cast(lat, lon, 0, levels, dtheta=wobble(no, 0.05) if dtheta is None else dtheta, dsal=0.008 * (lat - center[0]) + dsal)
    return {"no": no, "lat": lat, "long": lon, "date": 2006.03 + 0.0274 * no, "pres": c["pres"].copy(), "ptmp": c["ptmp"], "sal": c["sal"], "temp": c["ptmp"] + 1e-4 * c["pres"]}


_D = np.arange(0, 2001, 50.0)
TYPICAL = {"Deph": _D, "T_meanN": 2.3 + 6 * np.exp(-_D / 260), "T_stdN": 0.35 + 0.1 * np.exp(-_D / 900), "S_meanN": 34.1 + 0.6 * _D / 2000,
           "S_stdN": 0.06 + 0 * _D, "S_meanS": 33.7 + 0.95 * (1 - np.exp(-_D / 700)), "S_stdS": 0.03 + 0 * _D,
           "T_meanS": 3.6 - 0.0008 * _D, "T_stdS": 0.3 + 0 * _D}


def world(ref=None, topo=None, periodic=False):
    w = W.World(topo=topo or shared_topo("10" if periodic else None))
    savemat(os.path.join(w.root, "constants", "TypicalProfileAroundSAF.mat"), {k: v[None, :] for k, v in TYPICAL.items()})
    if ref is not None:
        put_reference(w, ref)
    return w


# ------------------------------------------------------------------ stages
def do_map(cfg, name="3901234", float_dir=""):
    from pyowc import calibration
    calibration.update_salinity_mapping(float_dir, cfg, name)


def do_series(cfg, name="3901234", float_dir=""):
    from pyowc import configuration
    configuration.set_calseries(float_dir, name, cfg)


def do_fit(cfg, name="3901234", float_dir="", seed=1234):
    from pyowc import calibration
    if seed is not None:
        np.random.seed(seed)
    calibration.calc_piecewisefit(float_dir, name, cfg)


def path(cfg, what, name="3901234", float_dir=""):
    d, pre, post = {"source": ("FLOAT_SOURCE_DIRECTORY", None, "FLOAT_SOURCE_POSTFIX"),
                    "map": ("FLOAT_MAPPED_DIRECTORY", "FLOAT_MAPPED_PREFIX", "FLOAT_MAPPED_POSTFIX"),
                    "series": ("FLOAT_CALIB_DIRECTORY", "FLOAT_CALSERIES_PREFIX", "FLOAT_CALIB_POSTFIX"),
                    "cal": ("FLOAT_CALIB_DIRECTORY", "FLOAT_CALIB_PREFIX", "FLOAT_CALIB_POSTFIX")}[what]
    return os.path.join(cfg[d], float_dir, (cfg[pre] if pre else "") + name + cfg[post])


def read(p):
    """all variables of a .mat file"""
    return {k: v for k, v in loadmat(p).items() if not k.startswith("__")}


def mapped(cfg, name="3901234", float_dir=""):
    return read(path(cfg, "map", name, float_dir))


def same_var(a, b, tol=0.0):
    a, b = np.asarray(a), np.asarray(b)
    if a.size == 0 and b.size == 0:
        return True
    if a.shape != b.shape:
        return False
    if a.dtype.kind in "fiu" and b.dtype.kind in "fiu":
        a, b = a.astype(float), b.astype(float)
        na, nb = np.isnan(a), np.isnan(b)
        if not np.array_equal(na, nb):
            return False
        return bool(np.all(na | (a == b) | (np.abs(a - b) <= tol * (1 + np.abs(b)))))
    return bool(np.array_equal(a, b))


def columns(m, nos=None):
    """{profile number: {quantity: column}} of a mapped file; None if it is not well formed"""
    no = np.ravel(m["la_profile_no"])
    out = {}
    for j, k in enumerate(no):
        if nos is None or int(k) in nos:
            c = {q: np.asarray(m[q])[:, j] for q in PER_LEVEL}
            c.update({q: float(np.ravel(m[q])[j]) for q in SETTINGS})
            out[int(k)] = c
    return out


def shape_problem(m, nos, levels):
    """None if the mapped file m has exactly the profiles nos with that many levels, everything aligned"""
    no = np.ravel(m["la_profile_no"])
    if list(map(float, no)) != sorted(map(float, nos)):
        return "profiles %s instead of %s" % (no.tolist(), sorted(nos))
    for q in PER_LEVEL:
        if np.asarray(m[q]).shape != (levels, len(nos)):
            return "%s has shape %s instead of %s" % (q, np.asarray(m[q]).shape, (levels, len(nos)))
    for q in SETTINGS:
        if np.asarray(m[q]).size != len(nos):
            return "%s has %d entries for %d profiles" % (q, np.asarray(m[q]).size, len(nos))
    return None


def column_diff(a, b, tol=1e-9, levels=None):
    """first difference between two columns as given by columns(); missing trailing levels count as missing values"""
    for q in PER_LEVEL:
        u, v = np.asarray(a[q], float), np.asarray(b[q], float)
        n = max(len(u), len(v))
        u = np.concatenate([u, np.full(n - len(u), NAN)])
        v = np.concatenate([v, np.full(n - len(v), NAN)])
        if not same_var(u, v, tol):
            return "%s %s instead of %s" % (q, np.round(u, 9).tolist(), np.round(v, 9).tolist())
    for q in SETTINGS:
        if not same_var(a[q], b[q], 0):
            return "%s %r instead of %r" % (q, a[q], b[q])
    return None


def mapped_diff(a, b, tol=1e-9, nos=None):
    """first difference between two mapped files, reference positions aside"""
    ca, cb = columns(a, nos), columns(b, nos)
    if list(ca) != list(cb):
        return "profiles %s instead of %s" % (list(ca), list(cb))
    for k in ca:
        d = column_diff(ca[k], cb[k], tol)
        if d:
            return "profile %s: %s" % (k, d)
    return None


def places(m):
    """{(lon mod 360, lat): profile}"""
    s = np.asarray(m["selected_hist"], float)
    return [] if s.size == 0 else [(round(float(r[0]) % 360, 6) % 360, round(float(r[1]), 6), int(r[2])) for r in s.reshape(-1, 3)]


CAL = ("cal_SAL", "cal_SAL_err", "pcond_factor", "pcond_factor_err", "cal_COND", "cal_COND_err", "time_deriv", "time_deriv_err",
       "sta_mean", "sta_rms", "sta_SAL", "sta_SAL_err", "PROFILE_NO", "fcoef", "fbreaks")


def digest(p):
    with open(p, "rb") as f:
        return hashlib.md5(f.read()).hexdigest()


def tree(root, skip=()):
    """{relative path: digest} of every file"""
    out = {}
    for d, _, files in os.walk(root):
        for f in files:
            p = os.path.join(d, f)
            r = os.path.relpath(p, root)
            if not os.path.islink(p) and not any(r.startswith(s) for s in skip):
                out[r] = digest(p)
    return out


def state_of(m):
    """canonical content of a .mat file: all variables, numbers to 9 digits (rounding noise of the last bits does not make a state)"""
    h = hashlib.md5()
    for k in sorted(m):
        v = np.asarray(m[k])
        if v.dtype.kind == "f":
            v = np.round(v, 9) + 0.0
        h.update(repr((k, v.shape, v.dtype.str)).encode())
        h.update(v.tobytes() if v.dtype.kind != "O" else repr(v.tolist()).encode())
    return h.hexdigest()


def write_mapped(cfg, profs, sal, err, levels, name="3901234", float_dir=""):
    """a mapped file with given salinities and errors (per profile; NaN = not mapped), as if the mapping had found them"""
    n = len(profs)
    arr = {q: np.full((levels, n), NAN) for q in PER_LEVEL}
    for j, p in enumerate(profs):
        k = len(p["pres"])
        ok = np.isfinite(sal[j])
        arr["la_mapped_sal"][:k, j] = sal[j]
        arr["la_mapsalerrors"][:k, j] = np.where(ok, err[j], NAN)
        arr["la_noise_sal"][:k, j] = np.where(ok, 1e-4, NAN)
        arr["la_signal_sal"][:k, j] = np.where(ok, 1e-3, NAN)
        arr["la_ptmp"][:k, j] = np.where(ok, p["ptmp"], NAN)
    done = np.isfinite(arr["la_mapped_sal"]).any(axis=0)
    out = dict(arr, la_profile_no=np.array([[p["no"] for p in profs]], float))
    for q, key in SETTINGS.items():
        out[q] = np.where(done, float(cfg[key]), NAN)[None, :]
    out["selected_hist"] = np.array([[p["long"] + 0.1, p["lat"] + 0.1, p["no"]] for p, d in zip(profs, done) if d]).reshape(-1, 3)
    savemat(path(cfg, "map", name, float_dir), out)


def put_series(cfg, flags, nos, breaks=(), max_breaks=4, name="3901234", float_dir="", **limits):
    savemat(path(cfg, "series", name, float_dir), {
        "breaks": np.array(breaks, float) if len(breaks) else np.zeros((0, 0)), "max_breaks": np.array(max_breaks, float).reshape(-1, 1),
        "calseries": np.array([flags], float), "calib_profile_no": np.array([nos], float), "use_percent_gt": limits.pop("use_percent_gt", 0.5),
        **{k: limits.get(k, np.zeros((0, 0))) for k in ("use_theta_lt", "use_theta_gt", "use_pres_lt", "use_pres_gt")}})


def put_float(cfg, profs, levels, name="3901234", float_dir=""):
    W.write_float(path(cfg, "source", name, float_dir), profs, levels)
