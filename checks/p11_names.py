"""P11: stages find their files under every directory and naming setting, and touch no others."""
import itertools
import os
import shutil

import numpy as np

import pipe
import world as W
from engine import Result

PROP = "P11"
LEVEL = "exploration"
TECHNIQUE = "exhaustive exploration of the choices of directories and names (all pairs of settings, thorough: all triples) with the whole pipeline run twice for each and once with contradictory settings, contents and the complete tree compared"
NOTE = "Files of other content lie under the default names, so that a stage that looks there gives other results; contents are compared with those under the default names."
RULE = ("one case = a pair (or triple) of settings with all their alternatives; an evaluation is a pipeline of three stages, run again on one more profile; "
        "non-trivial = distinct choice of names")
ASSUMPTIONS = ["directories exist", "prefixes of calibration and series files differ"]
BATCH = 2
F = "3901234"
ALT = {
    "FLOAT_SOURCE_DIRECTORY": ["float_source", "other/in", "float source 2/"],
    "FLOAT_SOURCE_POSTFIX": [".mat", "_src.mat", ".dat", ""],
    "FLOAT_MAPPED_DIRECTORY": ["float_mapped", "x/y/z", "float_mapped/", "."],
    "FLOAT_MAPPED_PREFIX": ["map_", "", "m.a.p-"],
    "FLOAT_MAPPED_POSTFIX": [".mat", "_m.mat", ".result", ""],
    "FLOAT_CALIB_DIRECTORY": ["float_calib", "c/", "cc/dd"],
    "FLOAT_CALIB_PREFIX": ["cal_", "", "final-"],
    "FLOAT_CALSERIES_PREFIX": ["calseries_", "s", "calser.ies_"],
    "FLOAT_CALIB_POSTFIX": [".mat", "_c.mat", ".txt", ""],
    "HISTORICAL_DIRECTORY": ["climatology", "h/clim", "climatology/"],
    "HISTORICAL_CTD_PREFIX": ["/historical_ctd/ctd_", "/ctd/ctd.", "/C_"],
    "HISTORICAL_BOTTLE_PREFIX": ["/historical_bot/bot_", "/b/", "/B_"],
    "HISTORICAL_ARGO_PREFIX": ["/historical_argo/argo_", "/argo/2021/a", "/A_"],
    "CONFIG_DIRECTORY": ["constants", "other/const/"],
    "CONFIG_WMO_BOXES": ["wmo_boxes.mat", "boxes_2021.mat", "sub/b"],
    "CONFIG_SAF": ["TypicalProfileAroundSAF.mat", "saf.mat"],
    "float_dir": ["", "sub", "a/b", "sub/"],
}


def setup(tier):
    pipe.shared_topo()


def cases(tier):
    keys = sorted(ALT)
    for r in range(1, 3 if tier == "quick" else 4):
        for ks in itertools.combinations(keys, r):
            if r == 3 and not any(k.startswith("FLOAT") for k in ks):
                continue
            yield {"keys": list(ks)}


def content(cfg, fd):
    return {what: pipe.read(pipe.path(cfg, what, F, fd)) for what in ("map", "series", "cal")}


BASE = {}


def profiles():
    return [pipe.profile(k + 1, dsal=0.01 * k) for k in range(3)]


def pipeline(cfg, fd, n):
    pipe.do_map(cfg, F, fd)
    pipe.do_series(cfg, F, fd)
    pipe.do_fit(cfg, F, fd)


def lay(w, choice):
    """files of the choice; everything under the default names is something else"""
    fd = choice.get("float_dir", "")
    pick = {k: choice.get(k, v[0]) for k, v in ALT.items()}
    root = w.root
    cfg = w.config(MAP_USE_SAF=1)
    for k, v in pick.items():
        if k.endswith("_DIRECTORY"):
            cfg[k] = os.path.join(root, v) if v != "." else root
        elif k != "float_dir":
            cfg[k] = v
    ref = pipe.reference(12, center=CENTER)
    decoy = pipe.reference(12, center=CENTER, first=40, dsal=0.5)
    default_const = os.path.join(root, "constants")
    const = cfg["CONFIG_DIRECTORY"]
    os.makedirs(os.path.join(const, "sub"), exist_ok=True)
    saf = os.path.join(default_const, "TypicalProfileAroundSAF.mat")
    if os.path.realpath(const) != os.path.realpath(default_const):
        os.rename(os.path.join(default_const, "tbase.int"), os.path.join(const, "tbase.int"))
    if os.path.join(const, cfg["CONFIG_SAF"]) != saf:
        with open(saf, "rb") as f:
            data = f.read()
        os.remove(saf)
        with open(os.path.join(const, cfg["CONFIG_SAF"]), "wb") as f:
            f.write(data)
    for data, where in ((decoy, None), (ref, cfg)):
        flags = {}
        for (kind, box), casts in data.items():
            idx = pipe.KINDS.index(kind)
            fl = list(flags.get(box, (0, 0, 0)))
            fl[idx] = 1
            flags[box] = fl
            key = {"ctd": "HISTORICAL_CTD_PREFIX", "bot": "HISTORICAL_BOTTLE_PREFIX", "argo": "HISTORICAL_ARGO_PREFIX"}[kind]
            if where is None:
                p = os.path.join(root, "climatology") + ALT[key][0] + "%d.mat" % box
            else:
                p = cfg["HISTORICAL_DIRECTORY"] + cfg[key] + "%d.mat" % box
            W.write_reference(p, casts)
        W.write_boxes(os.path.join(default_const, "wmo_boxes.mat") if where is None else os.path.join(const, cfg["CONFIG_WMO_BOXES"]), flags if where else {})
    mine = {os.path.realpath(pipe.path(cfg, what, F, fd)) for what in ("source", "map", "series", "cal")}
    for d in ("float_source/", "float_mapped/map_", "float_calib/cal_", "float_calib/calseries_"):
        p = os.path.join(root, d + F + ".mat")
        if os.path.realpath(p) not in mine:
            if d == "float_source/":
                w.add_float(F, [pipe.profile(k + 5, dsal=-0.3) for k in range(2)])
            else:
                with open(p, "wb") as f:
                    f.write(b"none of the business of the stages")
    for k in ("FLOAT_SOURCE_DIRECTORY", "FLOAT_MAPPED_DIRECTORY", "FLOAT_CALIB_DIRECTORY"):
        os.makedirs(os.path.join(cfg[k], fd), exist_ok=True)
    return cfg, fd


CENTER = (-41.3, 70.4)


def put_source(cfg, fd, n):
    W.write_float(pipe.path(cfg, "source", F, fd), [pipe.profile(k + 1, CENTER, dsal=0.01 * k) for k in range(n)])


def both(w, choice):
    """results and trees of the two rounds"""
    cfg, fd = lay(w, choice)
    out = []
    for n in (3, 4, "contradiction"):
        if n == "contradiction":            # calibrated again with settings that contradict each other
            p = pipe.path(cfg, "series", F, fd)
            series = pipe.read(p)
            series.update(calseries=np.array([[1, 1, 2, 2]]), max_breaks=np.array([[0, 1, 2]]))
            pipe.savemat(p, series, appendmat=False)
            before = pipe.tree(w.root)
            pipe.do_fit(cfg, F, fd)
        else:
            put_source(cfg, fd, n)
            before = pipe.tree(w.root)
            pipeline(cfg, fd, n)
        after = pipe.tree(w.root)
        mine = {os.path.relpath(pipe.path(cfg, what, F, fd), w.root) for what in ("map", "series", "cal")}
        out.append((content(cfg, fd), before, after, mine))
    return out


def run(case):
    res = Result()
    if not BASE:
        with pipe.world() as w:
            BASE["x"] = [r[0] for r in both(w, {})]
    keys = case["keys"]
    full = len(keys) > 2
    for values in itertools.product(*[ALT[k][1:3 if full else None] for k in keys]):
        choice = dict(zip(keys, values))
        with pipe.world() as w:
            bad = None
            for k, (got, before, after, mine) in enumerate(both(w, choice)):
                if len(mine) != 3:
                    break
                want = BASE["x"][k]
                for what in want:
                    for v in want[what]:
                        if v not in got[what] or not pipe.same_var(got[what][v], want[what][v], 1e-9):
                            bad = "%s of the %s file: %s instead of %s" % (v, what, np.ravel(got[what].get(v, []))[:5], np.ravel(want[what][v])[:5])
                changed = {p for p in set(before) | set(after) if before.get(p) != after.get(p)}
                if changed - mine:
                    bad = "files %s were created, changed or removed" % sorted(changed - mine)
                if k == 0 and mine - set(after):
                    bad = "files %s were not written" % sorted(mine - set(after))
                if bad:
                    res.bad("%s, run %d: %s" % (choice, k + 1, bad))
                    return res
            res.count("evaluations")
            res.nontrivial(sorted(choice.items()))
    return res
