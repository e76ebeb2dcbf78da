"""Synthetic worlds for the OWC pipeline: topography, WMO boxes, reference casts, floats.

Everything is a deterministic function of its arguments.  Worlds live in scratch directories only.
"""
import os
import shutil
import tempfile

import numpy as np
from scipy.io import savemat, loadmat
import gsw

SCRATCH_ROOT = None


def scratch(prefix="owcmc."):
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    if SCRATCH_ROOT and os.path.isdir(SCRATCH_ROOT):        # goes with the whole run
        base = SCRATCH_ROOT
    try:
        return tempfile.mkdtemp(prefix=prefix, dir=base)
    except OSError:
        return tempfile.mkdtemp(prefix=prefix)


# ------------------------------------------------------------------ topography
ROWS, COLS = 2160, 4320


def topo_value(row, col):
    """Sea floor elevation (negative) stored at file row/col: smooth, periodic in longitude, always ocean."""
    lat = 90 - row / 12.0
    lon = col / 12.0
    z = -3500 - 600 * np.sin(np.radians(3 * lon)) * np.cos(np.radians(4 * lat)) \
        - 300 * np.cos(np.radians(lon)) - 2 * np.abs(lat)
    return np.round(z)


def write_topo(path, func=topo_value):
    r, c = np.meshgrid(np.arange(ROWS), np.arange(COLS), indexing="ij")
    np.asarray(func(r, c), dtype="<i2").tofile(path)


def ocean_depth(lat, lon, func=topo_value):
    """Bilinear depth (positive) at lat/lon from the same table (independent oracle)."""
    lon = np.mod(lon, 360.0)
    y = (90 - lat) * 12.0
    x = lon * 12.0
    r0 = int(np.clip(np.floor(y), 0, ROWS - 2))
    c0 = int(np.floor(x))
    fy, fx = y - r0, x - c0
    c1 = (c0 + 1) % COLS
    c0 %= COLS
    v = (func(r0, c0) * (1 - fy) * (1 - fx) + func(r0, c1) * (1 - fy) * fx
         + func(r0 + 1, c0) * fy * (1 - fx) + func(r0 + 1, c1) * fy * fx)
    return -float(v)


# ------------------------------------------------------------------ WMO boxes
def box_index(lat, lon):
    """1-based index (as the docs' lookup table) of the 10 degree cell containing lat/lon."""
    col = int(np.floor(np.mod(lon, 360.0) / 10.0))
    row = int(np.clip(np.floor((90.0 - lat) / 10.0), 0, 17))
    return col * 18 + row + 1


def box_number(lat, lon):
    """A unique box 'name' per cell: WMO square style (quadrant, lat tens, lon tens)."""
    i = box_index(lat, lon) - 1
    col, row = divmod(i, 18)
    clat = 85 - 10 * row
    clon = 5 + 10 * col
    e = clon <= 180
    q = {(True, True): 1, (False, True): 3, (False, False): 5, (True, False): 7}[(e, clat > 0)]
    lo = clon if e else 360 - clon
    return q * 1000 + int(abs(clat) // 10) * 100 + int(lo // 10)


BOX_NUMBERS = np.array([box_number(85 - 10 * (i % 18), 5 + 10 * (i // 18)) for i in range(648)])


def write_boxes(path, flags=None):
    """flags: {box_number: (ctd, bot, argo)}; boxes not listed have no data."""
    out = np.zeros((648, 4))
    out[:, 0] = BOX_NUMBERS
    for n, f in (flags or {}).items():
        out[BOX_NUMBERS == n, 1:] = f
    savemat(path, {"la_wmo_boxes": out})


# ------------------------------------------------------------------ water column
def theta_at(p, lat=0.0, lon=0.0, t=0.0):
    return 2.0 + 16.0 * np.exp(-np.asarray(p, float) / 700.0)


def sal_of_theta(theta, wiggle=0.0):
    th = np.asarray(theta, float)
    return 34.5 + 0.06 * (th - 2.0) + 0.004 * (th - 2.0) ** 2 / 10.0 + wiggle


def cast(lat, lon, date, pres, dtheta=0.0, dsal=0.0):
    pres = np.array(pres, float)
    th = theta_at(pres) + dtheta
    sal = sal_of_theta(th) + dsal
    return {"lat": lat, "long": lon, "date": date, "pres": pres, "ptmp": th, "sal": sal}


def write_reference(path, casts, sources=None, depth=None):
    """Write one historical_{ctd,bot,argo} file: casts as columns padded with NaN."""
    n = len(casts)
    m = depth or max([len(c["pres"]) for c in casts])
    arr = {k: np.full((m, n), np.nan) for k in ("pres", "ptmp", "sal", "temp")}
    for j, c in enumerate(casts):
        k = len(c["pres"])
        arr["pres"][:k, j] = c["pres"]
        arr["ptmp"][:k, j] = c["ptmp"]
        arr["sal"][:k, j] = c["sal"]
        arr["temp"][:k, j] = c["ptmp"]
    out = {
        "lat": np.array([[c["lat"] for c in casts]], float),
        "long": np.array([[c["long"] for c in casts]], float),
        "dates": np.array([[c["date"] for c in casts]], float),
        "source": np.array([[c.get("source", "src%03d" % j) for j, c in enumerate(casts)]], dtype=object),
        **arr,
    }
    os.makedirs(os.path.dirname(path), exist_ok=True)
    savemat(path, out)


def decimal_year(datenum):
    s = str(int(datenum)).ljust(14, "0")
    cum = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
    y, mo, d, h, mi = int(s[:4]), int(s[4:6]), int(s[6:8]), int(s[8:10]), int(s[10:12])
    return y + (cum[mo - 1] + d - 1 + h / 24 + mi / 1440) / 365


def write_float(path, profiles, levels=None):
    """profiles: list of dict(no, lat, long, date(decimal year), pres, ptmp, sal[, temp])."""
    n = len(profiles)
    m = levels or max(len(p["pres"]) for p in profiles)
    arr = {k: np.full((m, n), np.nan) for k in ("PRES", "PTMP", "SAL", "TEMP")}
    for j, p in enumerate(profiles):
        k = len(p["pres"])
        arr["PRES"][:k, j] = p["pres"]
        arr["PTMP"][:k, j] = p["ptmp"]
        arr["SAL"][:k, j] = p["sal"]
        arr["TEMP"][:k, j] = p.get("temp", p["ptmp"])
    os.makedirs(os.path.dirname(path), exist_ok=True)
    savemat(path, {
        "PROFILE_NO": np.array([[p["no"] for p in profiles]], float),
        "LAT": np.array([[p["lat"] for p in profiles]], float),
        "LONG": np.array([[p["long"] for p in profiles]], float),
        "DATES": np.array([[p["date"] for p in profiles]], float), **arr})


class World:
    """A directory tree holding one complete OWC installation's data."""

    def __init__(self, root=None, topo=None):
        self.own = root is None
        self.root = root or scratch()
        for d in ("constants", "climatology/historical_ctd", "climatology/historical_bot",
                  "climatology/historical_argo", "float_source", "float_mapped", "float_calib", "float_plots"):
            os.makedirs(os.path.join(self.root, d), exist_ok=True)
        self.tbase = os.path.join(self.root, "constants", "tbase.int")
        if topo and topo != self.tbase:
            os.symlink(topo, self.tbase)
        elif not os.path.exists(self.tbase):
            write_topo(self.tbase)
        self.flags = {}

    def config(self, **over):
        from pyowc import configuration
        cfg = configuration.load()
        cfg.update({
            "HISTORICAL_DIRECTORY": self.root + "/climatology",
            "FLOAT_SOURCE_DIRECTORY": self.root + "/float_source",
            "FLOAT_MAPPED_DIRECTORY": self.root + "/float_mapped",
            "FLOAT_CALIB_DIRECTORY": self.root + "/float_calib",
            "FLOAT_PLOTS_DIRECTORY": self.root + "/float_plots/",
            "CONFIG_DIRECTORY": self.root + "/constants"})
        cfg.update(over)
        return cfg

    def add_reference(self, kind, box, casts, **kw):
        """kind in ctd/bot/argo"""
        idx = {"ctd": 0, "bot": 1, "argo": 2}[kind]
        fl = list(self.flags.get(box, (0, 0, 0)))
        fl[idx] = 1
        self.flags[box] = tuple(fl)
        write_reference(os.path.join(self.root, "climatology", "historical_" + kind, "%s_%d.mat" % (kind, box)),
                        casts, **kw)
        write_boxes(os.path.join(self.root, "constants", "wmo_boxes.mat"), self.flags)

    def add_float(self, name, profiles, float_dir="", levels=None):
        write_float(os.path.join(self.root, "float_source", float_dir, name + ".mat"), profiles, levels)

    def close(self):
        if self.own and os.path.isdir(self.root):
            shutil.rmtree(self.root, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def clear_caches():
    """The reference-file readers memoise per process; a fresh process starts empty."""
    from pyowc.data import fetchers
    for n in ("read_mat_ctd", "read_mat_bottle", "read_mat_argo"):
        f = getattr(fetchers, n, None)
        if f is not None and hasattr(f, "cache_clear"):
            f.cache_clear()
