"""Reference implementations, written from the published method (Wong et al. 2003, Owens & Wong 2009,
Cabanes et al. 2016) and kept boring.  They share no code with pyowc."""
import math

import numpy as np

OMEGA2 = 2 * 7.292e-5


def pv(lat, z):
    v = OMEGA2 * math.sin(math.radians(lat)) / z
    return v if v != 0 else 1e-5


def wrap_to(lon, ref):
    """lon moved by whole turns to within 180 degrees of ref"""
    lon = np.asarray(lon, float)
    return lon - 360.0 * np.round((lon - ref) / 360.0)


# ------------------------------------------------------------------ objective mapping
def covariance(a, b, lat_scale, lon_scale, age, phi, use_pv):
    """a, b: rows of (lat, lon, year, depth)"""
    a, b = np.asarray(a, float).reshape(len(a), -1), np.asarray(b, float).reshape(len(b), -1)

    def scaled(k, scale):
        return ((a[:, k][:, None] - b[:, k][None, :]) / scale) ** 2

    d = scaled(0, lat_scale) + scaled(1, lon_scale)
    if age != 0:
        d += scaled(2, age)
    if use_pv == 1:
        u = np.array([pv(p[0], p[3]) for p in a])[:, None]
        v = np.array([pv(q[0], q[3]) for q in b])[None, :]
        d += ((u - v) / np.sqrt(u * u + v * v) / phi) ** 2
    return np.exp(-d)


def optimal_interpolation(values, target, points, lat_scale, lon_scale, age, phi, use_pv, signal, noise):
    """(estimate, error) at target, (estimates, errors) at the data: unknown mean estimated (Bretherton 1976)."""
    d = np.asarray(values, float)
    n = len(d)
    c = signal * covariance(points, points, lat_scale, lon_scale, age, phi, use_pv)
    inv = np.linalg.inv(c + noise * np.eye(n))
    one = np.ones(n)
    denom = one @ inv @ one
    mean = (one @ inv @ d) / denom
    w = inv @ (d - mean)

    def at(k):
        ki = k @ inv
        var = signal - (ki * k).sum(axis=1) + (1 - ki @ one) ** 2 / denom
        return mean + k @ w, np.sqrt(np.where(var >= 0, var, np.nan))

    e, s = at(signal * covariance([target], points, lat_scale, lon_scale, age, phi, use_pv))
    return (float(e[0]), float(s[0])) + at(c)


def noise_var(sal, lat, lon):
    """Half the mean squared difference to the nearest cast at another place; None if ambiguous."""
    sal, lat, lon = (np.asarray(v, float) for v in (sal, lat, lon))
    tot, cnt = 0.0, 0
    for i in range(len(sal)):
        dd = (lat[i] - lat) ** 2 + (lon[i] - lon) ** 2
        dd[dd == 0] = np.inf
        j = int(np.argmin(dd))
        if np.isinf(dd[j]):
            continue
        tot += (sal[i] - sal[j]) ** 2
        cnt += 1
    return tot / cnt / 2 if cnt else 0.0


def signal_var(sal):
    s = np.asarray(sal, float).ravel()
    s = s[~np.isnan(s)]
    return float(np.mean((s - s.mean()) ** 2))


# ------------------------------------------------------------------ interpolation to float theta
def crossings(theta, sal, pres, th):
    """[(pressure, salinity)] at which a cast (NaN free, in order) has potential temperature th"""
    out = []
    for i in range(len(theta) - 1):
        a, b = theta[i], theta[i + 1]
        if a == b:
            continue
        if (a - th) * (b - th) <= 0:
            f = (th - a) / (b - a)
            out.append((pres[i] + f * (pres[i + 1] - pres[i]), sal[i] + f * (sal[i + 1] - sal[i])))
    return out


def interp_cast(theta, sal, pres, th, p, eps=1e-9):
    """acceptable (sal, pres) answers for one cast and one float level; [] = no value"""
    theta, sal, pres = (np.asarray(v, float) for v in (theta, sal, pres))
    ok = np.isfinite(theta) & np.isfinite(sal) & np.isfinite(pres)
    c = crossings(theta[ok], sal[ok], pres[ok], th)
    if not c:
        return []
    m = min(abs(x[0] - p) for x in c)
    return [(s, q) for q, s in c if abs(q - p) <= m + eps]


# ------------------------------------------------------------------ mapping of a float profile
def map_level(sal, lat, lon, year, depth, target, cfg):
    """Two scale mapping of reference salinities (already selected for one level).

    target = (lat, lon, year, depth); returns (mapped, error, noise, signal, used) or None."""
    sal = np.asarray(sal, float)
    if len(sal) <= 5:
        return None
    mean, sd = sal.mean(), math.sqrt(signal_var(sal))
    keep = np.array([not (abs(s - mean) / sd > 3) for s in sal])
    sal, lat, lon, year, depth = (np.asarray(v, float)[keep] for v in (sal, lat, lon, year, depth))
    noise = noise_var(sal, lat, lon)
    signal = signal_var(sal)
    pts = np.column_stack((lat, lon, year, depth))
    use_pv = cfg["MAP_USE_PV"]
    e, s, fit, _ = optimal_interpolation(sal, target, pts, cfg["MAPSCALE_LATITUDE_LARGE"], cfg["MAPSCALE_LONGITUDE_LARGE"],
                                         cfg["MAPSCALE_AGE_LARGE"], cfg["MAPSCALE_PHI_LARGE"], use_pv, signal, noise)
    res = sal - fit
    e2, s2, _, _ = optimal_interpolation(res, target, pts, cfg["MAPSCALE_LATITUDE_SMALL"], cfg["MAPSCALE_LONGITUDE_SMALL"],
                                         cfg["MAPSCALE_AGE_SMALL"], cfg["MAPSCALE_PHI_SMALL"], use_pv, signal_var(res), noise)
    return e + e2, math.sqrt(s * s + s2 * s2), noise, signal, keep


# ------------------------------------------------------------------ selection of casts
def in_ellipse(lat, lon, z, c, cfg):
    """c = (lat, lon, year, depth)"""
    d = ((lon - c[1]) / (3 * cfg["MAPSCALE_LONGITUDE_LARGE"])) ** 2 + ((lat - c[0]) / (3 * cfg["MAPSCALE_LATITUDE_LARGE"])) ** 2
    if cfg["MAP_USE_PV"] == 1:
        u, v = pv(c[0], c[3]), pv(lat, z)
        d += ((u - v) / math.sqrt(u * u + v * v) / cfg["MAPSCALE_PHI_LARGE"]) ** 2
    return math.sqrt(d) < 1


def correlation(lat, lon, year, z, c, lat_s, lon_s, age, phi, use_pv):
    d = ((lon - c[1]) / lon_s) ** 2 + ((lat - c[0]) / lat_s) ** 2 + ((year - c[2]) / age) ** 2
    if use_pv == 1:
        u, v = pv(c[0], c[3]), pv(lat, z)
        d += ((u - v) / math.sqrt(u * u + v * v) / phi) ** 2
    return d


# ------------------------------------------------------------------ piecewise linear fit
def basis(x, breaks, origin):
    """Columns 1, x-x0 up to the first break, x-b1 up to the next ... (continuous piecewise linear)"""
    x = np.asarray(x, float)
    edges = [origin] + list(breaks) + [np.inf]
    cols = [np.ones(len(x))]
    for a, b in zip(edges[:-1], edges[1:]):
        lo = a if a != origin else -np.inf
        cols.append(np.clip(x, lo, b) - a)
    return np.column_stack(cols)


def weighted_lstsq(e, y, w):
    r = np.sqrt(np.asarray(w, float))
    return np.linalg.lstsq(e * r[:, None], y * r, rcond=None)[0]
