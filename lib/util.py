"""Comparisons and small combinatorial helpers."""
import itertools

import numpy as np


def same(a, b, tol=1e-9, rel=1e-9):
    """Equal shapes, NaN at the same places, values within tol."""
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    na, nb = np.isnan(a), np.isnan(b)
    if not np.array_equal(na, nb):
        return False
    if a.size == 0:
        return True
    with np.errstate(all="ignore"):
        ok = (np.abs(a - b) <= tol + rel * np.abs(b)) | (a == b) | na
    return bool(np.all(ok))


def diff(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return "shape %s instead of %s" % (a.shape, b.shape)
    na, nb = np.isnan(a), np.isnan(b)
    if not np.array_equal(na, nb):
        i = tuple(int(k[0]) for k in np.nonzero(na != nb)) if a.ndim else ()
        return "at %s: %r instead of %r (missing values differ at %d places)" % (
            i, a[i].tolist(), b[i].tolist(), int((na != nb).sum()))
    d = np.where(na, 0, np.abs(a - b))
    d = np.where(np.isnan(d), np.inf, d) if d.size else d
    i = np.unravel_index(int(np.argmax(d)), d.shape) if d.ndim and d.size else ()
    return "at %s: %r instead of %r" % (tuple(int(k) for k in i), a[i].tolist(), b[i].tolist())


def subsets(n, lo=0, hi=None):
    for k in range(lo, (n if hi is None else hi) + 1):
        yield from itertools.combinations(range(n), k)


def ordered_partitions(items):
    """All ordered set partitions (each block a tuple in ascending order)."""
    items = list(items)
    if not items:
        yield ()
        return
    for mask in range(1, 1 << len(items)):
        block = tuple(x for i, x in enumerate(items) if mask >> i & 1)
        rest = [x for i, x in enumerate(items) if not mask >> i & 1]
        for tail in ordered_partitions(rest):
            yield (block,) + tail


def set_partitions_flags(n, k):
    """Canonical assignments of n items to at most k unlabelled classes (restricted growth strings)."""
    def rec(prefix, m):
        if len(prefix) == n:
            yield tuple(prefix)
            return
        for v in range(min(m + 1, k)):
            yield from rec(prefix + [v], max(m, v + 1))
    yield from rec([], 0)
