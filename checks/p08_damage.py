"""P08: missing or damaged reference files count as boxes without data."""
import itertools
import os
import shutil

import numpy as np
from scipy.io import loadmat, savemat

import pipe
import world as W
from engine import Result

PROP = "P08"
LEVEL = "fault_enumeration"
TECHNIQUE = "exhaustive fault enumeration: every subset of the reference files damaged in every way, and every truncation point, each mapped by the real stage and compared with the box table saying there is no such data"
NOTE = "Faults are permanent (the file is damaged before the run); the oracle is the same run without these files and with their flags off."
RULE = ("one case = one kind of damage (or pair of kinds) with all subsets of the reference files, or a range of truncation points of one file; an evaluation is a mapping; "
        "non-trivial = distinct (damage, files, mapped content)")
ASSUMPTIONS = ["damage does not come or go while the process runs"]
BATCH = 1
NAN = np.nan
F = "3901234"
NEEDED = ("lat", "long", "dates", "pres", "ptmp", "sal")
DAMAGE = ["missing", "empty", "text", "header", "half", "h5", "directory"] + ["no " + v for v in NEEDED] + ["no source", "other variables"]


def setup(tier):
    pipe.shared_topo()


def reference():
    """five files in two neighbouring boxes; every cast different"""
    ref = {}
    for i in range(24):
        c = pipe.hist_cast(i, dsal=0.003 * i)
        box = W.box_number(c["lat"], c["long"])
        if box not in BOXES:
            c["lat"] = -21.0 - 0.04 * i
            c["long"] = 71.0 - (2.0 if i % 2 else 0.0) + 0.02 * i
            box = W.box_number(c["lat"], c["long"])
        ref.setdefault((pipe.KINDS[i % 3], box), []).append(c)
    ref.pop(sorted(ref)[-1])
    return ref


BOXES = (W.box_number(-21.0, 71.0), W.box_number(-21.0, 69.0))


def cases(tier):
    for d in DAMAGE:
        yield {"damage": [d], "cfg": {}}
    yield {"damage": ["missing"], "cfg": {"MAP_USE_PV": 1, "CONFIG_MAX_CASTS": 8}}
    yield {"damage": ["text"], "cfg": {"CONFIG_MAX_CASTS": 7}}
    yield {"damage": ["half"], "cfg": {"MAP_USE_SAF": 1}}
    pairs = [("missing", "text"), ("no sal", "empty"), ("half", "no dates"), ("no pres", "missing")] if tier == "quick" else list(itertools.combinations(DAMAGE, 2))
    for a, b in pairs:
        yield {"damage": [a, b], "cfg": {}}
    step = 40 if tier == "quick" else 8
    for f in range(5):
        for part in range(4):
            yield {"cut": f, "part": part, "step": step}


def spoil(path, how):
    if how == "missing":
        os.remove(path)
    elif how == "empty":
        open(path, "wb").close()
    elif how == "text":
        with open(path, "w") as f:
            f.write("lat long dates pres ptmp sal source\n" * 40)
    elif how == "header":
        with open(path, "r+b") as f:
            f.write(b"\0" * 140)
    elif how == "half":
        with open(path, "r+b") as f:
            f.truncate(os.path.getsize(path) // 2)
    elif how == "h5":
        with open(path, "wb") as f:
            f.write(b"MATLAB 7.3 MAT-file".ljust(124) + b"\x00\x02IM" + b"\0" * 384 + b"\x89HDF\r\n\x1a\n" + b"\0" * 900)
    elif how == "directory":
        os.remove(path)
        os.mkdir(path)
    else:
        m = {k: v for k, v in loadmat(path).items() if not k.startswith("__")}
        if how == "other variables":
            m = {"a": 1, "b": [2, 3]}
        else:
            m.pop(how.split()[1])
        savemat(path, m)


def mapping(ref, cfgover, act=None):
    with pipe.world(ref) as w:
        cfg = w.config(**cfgover)
        if act:
            act(w)
        w.add_float(F, [pipe.profile(2), pipe.profile(4)])
        pipe.do_map(cfg, F)
        return pipe.mapped(cfg, F)


def file_of(w, key):
    return os.path.join(w.root, "climatology", "historical_" + key[0], "%s_%d.mat" % key)


def run(case):
    res = Result()
    ref = reference()
    keys = sorted(ref)
    clean = {}

    def without(lost, cfg):
        if lost not in clean:
            clean[lost] = mapping({k: v for k, v in ref.items() if k not in lost}, cfg)
        return clean[lost]

    def compare(m, want, text):
        bad = pipe.mapped_diff(m, want)
        if not bad and set(pipe.places(m)) != set(pipe.places(want)):
            bad = "reference positions differ"
        res.count("evaluations")
        if bad:
            res.bad("%s: %s" % (text, bad))
            return False
        res.nontrivial(text, pipe.state_of(m))
        return True

    if "damage" in case:
        for r in range(1, len(keys) + 1):
            for lost in itertools.combinations(keys, r):
                kinds = case["damage"]
                words = [kinds * r] if len(kinds) == 1 else [w for w in itertools.product(kinds, repeat=r) if len(set(w)) > 1 and (r < 4 or w[0] == kinds[0])]
                for word in words:
                    # a missing source matters for argo only
                    really = tuple(k for k, d in zip(lost, word) if d != "no source" or k[0] == "argo")

                    def act(w):
                        for k, d in zip(lost, word):
                            spoil(file_of(w, k), d)
                    if not compare(mapping(ref, case["cfg"], act), without(really, case["cfg"]), "%s %s" % (list(zip(lost, word)), case["cfg"])):
                        return res
        return res
    key = keys[case["cut"]]
    with pipe.world(ref) as w:
        whole = open(file_of(w, key), "rb").read()
    cuts = sorted(set(range(0, len(whole), case["step"])) | set(range(0, 140, 20)) | {len(whole) - k for k in (1, 2, 3, 4, 8, 9)})
    full = mapping(ref, {})
    # the position from which on only the unneeded last variable is hit
    import io
    marker = whole.rfind(b"temp")
    for n in cuts[case["part"]::4]:
        def act(w):
            with open(file_of(w, key), "r+b") as f:
                f.truncate(n)
        m = mapping(ref, {}, act)
        if n >= marker - 64 and pipe.mapped_diff(m, full) is None:
            res.count("evaluations")
            continue
        if not compare(m, without((key,), {}), "%s_%d.mat truncated to %d of %d bytes" % (key[0], key[1], n, len(whole))):
            return res
    return res
