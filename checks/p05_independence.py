"""P05: results do not depend on what ran before; inputs are never changed."""
import copy
import itertools
import os

import numpy as np

import pipe
import pristine
import world as W
from engine import Result

PROP = "P05"
LEVEL = "model_checking"
TECHNIQUE = "exploration of all interleavings of the stages of two floats in one process (with repetitions and changes of the random state between them), each step on the real code, states compared with solo runs"
NOTE = "All interleavings of the stages of the bounded floats, crossed with settings; a solo run in a fresh directory tree is the oracle. Reference readers memoise per path, so every history gets its own tree."
RULE = ("one case = a pair of floats with a setting and a prefix of the interleaving, or one configuration entry; a transition is a stage run; states are distinct contents of the result tree; "
        "non-trivial = distinct (pair, setting, history)")
ASSUMPTIONS = ["reference files do not change while a process runs", "Monte-Carlo error estimates are compared for equal random states only"]
BATCH = 1
NAN = np.nan
A, B = "3901234", "4905678"
CONFIGS = [{}, {"MAP_USE_PV": 1, "CONFIG_MAX_CASTS": 12}, {"MAP_USE_SAF": 1, "MAP_P_EXCLUDE": 0}, {"MAPSCALE_LATITUDE_LARGE": 1.5, "MAPSCALE_LONGITUDE_LARGE": 1.5, "CONFIG_MAX_CASTS": 7}]
STAGES = ("map", "series", "fit")
TREES = [("topo", "near", (1,)), ("topo", "south", (1,)), ("values", "near", (0, 1)), ("places", "near", (0, 1)), ("boxes", "near", (0, 3)), ("front", "south", (2,)),
         ("source", "near", (0, 1, 2)), ("settings", "near", (0, 1, 2, 3)), ("settings", "south", (0, 1, 2, 3))]


def setup(tier):
    pipe.shared_topo()
    pipe.shared_topo("10")
    pristine.start()


def orders(a=3, b=3):
    for k in itertools.combinations(range(a + b), a):
        yield "".join("A" if i in k else "B" for i in range(a + b))


def cases(tier):
    pairs = ["near", "same", "other", "greenwich", "south", "depth"]
    for pair in pairs:
        for k in range(len(CONFIGS)):
            for i, o in enumerate(orders()):
                if tier == "thorough" or (i + k) % 2 == 0 or pair == "near":
                    yield {"pair": pair, "cfg": k, "order": o, "dirs": 0}
            yield {"pair": pair, "cfg": k, "order": "AAABBB", "dirs": 1}
            yield {"pair": pair, "cfg": k, "order": "ABABAB", "dirs": 1}
            yield {"pair": pair, "cfg": k, "order": "AAAAAA", "dirs": 0}
            yield {"pair": pair, "cfg": k, "order": "BBBAAABBB", "dirs": 0}
    # two directory trees that differ in one kind of input only, or one with two configurations
    few = ["AAABBB", "BBBAAA", "ABABAB", "BAABBA", "AABBAB"]
    for trees, pair, ks in TREES:
        for k in ks:
            for o in (few if tier == "quick" else orders()):
                yield {"pair": pair, "cfg": k, "order": o, "dirs": 0, "trees": trees}
    for pair in pairs:
        for k in range(len(CONFIGS)):
            yield {"random": k, "pair": pair, "states": 6 if tier == "quick" else 25}
    yield {"load": "all"}


def floats(pair):
    """centers and profiles of the floats"""
    ca = pipe.HERE
    cb = {"near": (-20.9, 71.3), "same": pipe.HERE, "other": (33.2, 251.0), "depth": pipe.HERE, "greenwich": (-20.0, 359.9), "south": (-47.0, 70.1)}[pair]
    if pair == "greenwich":
        ca = (-20.1, 359.7)
    if pair == "south":
        ca = (-46.2, 70.9)
    fa = [pipe.profile(k, ca, dsal=0.01 * k) for k in (1, 2, 4, 5)]
    fb = [pipe.profile(k, cb, dtheta=0.03 * k, dsal=-0.02) for k in (1, 3, 4)]
    fb[1]["sal"][3] = NAN
    if pair == "depth":                     # one float sees the upper ocean only
        for p in fa:
            for q in ("pres", "ptmp", "sal", "temp"):
                p[q] = p[q][:5]
    ref = pipe.reference(20, ca)
    if cb != ca:
        for key, casts in pipe.reference(14, cb, first=20).items():
            ref.setdefault(key, []).extend(casts)
    # each float has contributed to the argo reference data, the two are mixed in the files
    for (kind, box), casts in ref.items():
        for i, c in enumerate(casts):
            if pair == "greenwich":
                c["long"] %= 360.0
            if kind == "argo" and i % 3 != 1:
                c["source"] = "argo_%s_%d" % (A if i % 3 else B, i)
    return fa, fb, ref


def results(cfg, name, fd):
    out = {}
    for what in ("map", "series", "cal"):
        p = pipe.path(cfg, what, name, fd)
        if os.path.exists(p):
            out[what] = pipe.read(p)
    return out


def same_results(a, b, skip=()):
    if list(a) != list(b):
        return "files %s instead of %s" % (list(a), list(b))
    for what in a:
        for k in b[what]:
            if k in skip:
                continue
            if k not in a[what] or not pipe.same_var(a[what][k], b[what][k], 1e-9):
                return "%s of the %s file: %s instead of %s" % (k, what, np.ravel(a[what].get(k, []))[:6], np.ravel(b[what][k])[:6])
    return None


def stage(cfg, name, fd, k, seed):
    if k % 3 == 0:
        p = pipe.path(cfg, "map", name, fd)
        if k >= 3 and os.path.exists(p):      # done again from nothing
            os.remove(p)
        pipe.do_map(cfg, name, fd)
    elif k % 3 == 1:
        pipe.do_series(cfg, name, fd)
    else:
        pipe.do_fit(cfg, name, fd, seed)


def tree(w):
    t = pipe.tree(w.root)
    ins = {k: v for k, v in t.items() if not k.startswith(("float_mapped", "float_calib"))}
    return ins, {k: v for k, v in t.items() if k not in ins}


def where(case):
    """directory and name of the two floats; two floats in two trees have the same ones"""
    if case.get("trees"):
        return {"A": "", "B": ""}, {"A": A, "B": A}
    return {"A": "", "B": "sub" if case["dirs"] else ""}, {"A": A, "B": A if case["dirs"] else B}     # the same name in another directory is another float


def build(case):
    """({which: world}, {which: configuration}); both floats share one world unless they have trees of their own"""
    fa, fb, ref = floats(case["pair"])
    over = CONFIGS[case["cfg"]]
    fds, names = where(case)
    kind = case.get("trees")
    if not kind:
        w = pipe.world(ref)
        cfg = w.config(**over)
        for x, profs in (("A", fa), ("B", fb)):
            for d in ("float_source", "float_mapped", "float_calib"):
                os.makedirs(os.path.join(w.root, d, fds[x]), exist_ok=True)
            w.add_float(names[x], profs, fds[x])
        return {"A": w, "B": w}, {"A": cfg, "B": cfg}
    if kind == "settings":                  # one tree, another configuration with results of its own
        w = pipe.world(ref)
        w.add_float(A, fa)
        other = CONFIGS[(case["cfg"] + 1) % len(CONFIGS)]
        cfgs = {"A": w.config(**over), "B": w.config(FLOAT_MAPPED_DIRECTORY=w.root + "/float_mapped_b", FLOAT_CALIB_DIRECTORY=w.root + "/float_calib_b", **other)}
        for d in ("float_mapped_b", "float_calib_b"):
            os.makedirs(os.path.join(w.root, d))
        return {"A": w, "B": w}, cfgs
    ws, cfgs = {}, {}
    for x in "AB":
        fa, fb, ref = floats(case["pair"])
        topo = None
        if kind == "front":                 # the float is one of the north, every other cast one of the south
            typical = pipe.TYPICAL
            for i, c in enumerate(fa + [c for key in sorted(ref) for c in ref[key]]):
                side = "S" if i >= len(fa) and i % 2 else "N"
                for q in "TS":
                    c["ptmp" if q == "T" else "sal"] = np.interp(c["pres"], typical["Deph"], typical[q + "_mean" + side]) + 0.01 * np.sin(i + np.arange(len(c["pres"])))
                if i >= len(fa):            # clearly so at 300 dbar, the float is recognised by its envelope only
                    c["ptmp"] += 1.2 if side == "N" else -0.6
                else:
                    c["temp"] = c["ptmp"] + 1e-4 * c["pres"]
        if x == "B":
            if kind == "topo":
                topo = pipe.shared_topo("10")
            elif kind == "source":
                for i, p in enumerate(fa):
                    p["sal"] = p["sal"] + 0.03 * (i + 1)
                    p["lat"] += 0.2
            for casts in ref.values():
                for i, c in enumerate(casts):
                    if kind == "values":
                        c["sal"] = c["sal"] + 0.02 * (1 + i)
                    elif kind == "places":
                        c["lat"] = c["lat"] + (0.02 if c["lat"] % 10 < 5 else -0.02) * (1 + i % 5)
                        c["date"] = c["date"] + 1e10
        w = pipe.world(ref, topo=topo)
        if x == "B" and kind == "boxes":
            W.write_boxes(os.path.join(w.root, "constants", "wmo_boxes.mat"), {b: (f[0], 0, f[2]) for b, f in w.flags.items()})
        if x == "B" and kind == "front":
            pipe.savemat(os.path.join(w.root, "constants", "TypicalProfileAroundSAF.mat"),
                         {k: np.array([v + (0 if k == "Deph" else 2.0 if k[0] == "T" else 0.3)]) for k, v in pipe.TYPICAL.items()})
        w.add_float(A, fa)
        ws[x], cfgs[x] = w, w.config(**dict(over, MAP_P_DELTA=2000) if kind == "front" else over)
    return ws, cfgs


def alone(case, x):
    """results after each stage of a float that is processed alone, in a process of its own"""
    fds, names = where(case)
    ws, cfgs = build(case)
    out = []
    try:
        np.random.seed(7)
        for k in range(3):
            stage(cfgs[x], names[x], fds[x], k, 99)
            out.append(results(cfgs[x], names[x], fds[x]))
    finally:
        for w in ws.values():
            w.close()
    return out


def run_order(case, res):
    fds, names = where(case)
    solo = {x: pristine.call("p05_independence", "alone", case, x) for x in sorted(set(case["order"]))}
    if case.get("trees") and not same_results(solo["A"][0], solo["B"][0]) is not None:
        res.bad("the two trees make no difference")
        return
    ws, cfgs = build(case)
    try:
        before_cfg = {x: copy.deepcopy(dict(cfgs[x])) for x in "AB"}

        def trees():
            ins, outs = {}, {}
            for x in "AB":
                i, o = tree(ws[x])
                ins.update({(ws[x].root, k): v for k, v in i.items()})
                outs.update({(ws[x].root, k): v for k, v in o.items()})
            return ins, outs

        inputs, _ = trees()
        np.random.seed(4321)
        done = {"A": 0, "B": 0}
        seen = set()
        for i, x in enumerate(case["order"]):
            k = done[x]
            _, outs = trees()
            np.random.seed(1000 + i)
            np.random.rand(i)
            stage(cfgs[x], names[x], fds[x], k, 99)
            done[x] += 1
            res.count("transitions")
            res.count("evaluations")
            text = None
            for y in "AB":
                if before_cfg[y] != dict(cfgs[y]) or str(before_cfg[y]) != str(dict(cfgs[y])):
                    text = "the configuration was changed"
            ins, after = trees()
            if ins != inputs:
                text = "input files changed: %s" % sorted(set(ins.items()) ^ set(inputs.items()))[:3]
            own = {os.path.abspath(pipe.path(cfgs[x], what, names[x], fds[x])) for what in ("map", "series", "cal")}
            for root, p in outs:
                if os.path.abspath(os.path.join(root, p)) not in own and outs[root, p] != after.get((root, p)):
                    text = "%s belongs to another float and was changed" % p
            want = solo[x][min(k, 2)]
            got = results(cfgs[x], names[x], fds[x])
            text = text or same_results(got, want)
            if text:
                res.bad("stage %d of %s after %s%s: %s" % (k, x, case["order"][:i], " (trees with other %s)" % case["trees"] if case.get("trees") else "", text))
                return
            s = tuple((y, what, pipe.state_of(v)) for y in "AB" for what, v in sorted(results(cfgs[y], names[y], fds[y]).items()))
            if s not in seen:
                seen.add(s)
                res.count("states")
            res.count("traces_validated_against_impl")
        res.nontrivial(case["pair"], case["cfg"], case["order"], case["dirs"], case.get("trees"))
    finally:
        for w in ws.values():
            w.close()


def run_random(case, res):
    fa, fb, ref = floats(case["pair"])
    with pipe.world(ref) as w:
        cfg = w.config(**CONFIGS[case["random"]])
        w.add_float(A, fa)
        first = None
        for s in range(case["states"]):
            for f in ("map", "series", "cal"):
                p = pipe.path(cfg, f, A)
                if os.path.exists(p):
                    os.remove(p)
            np.random.seed(s)
            np.random.rand(13 * s)
            pipe.do_map(cfg, A)
            pipe.do_series(cfg, A)
            pipe.do_fit(cfg, A, seed=s)
            r = results(cfg, A, "")
            res.count("evaluations")
            if first is None:
                first = r
            bad = same_results(r, first, ("cal_SAL_err", "pcond_factor_err", "cal_COND_err", "time_deriv_err"))
            if bad:
                res.bad("random state %d: %s" % (s, bad))
                return
            res.nontrivial("random", case["pair"], case["random"], s)


def mutate(v):
    if isinstance(v, list):
        for i, x in enumerate(v):
            if isinstance(x, (list, dict)):
                mutate(x)
            else:
                v[i] = -987
        v.append(-986)
    elif isinstance(v, dict):
        for k in v:
            if isinstance(v[k], (list, dict)):
                mutate(v[k])
            else:
                v[k] = -985
    elif isinstance(v, np.ndarray):
        v[...] = -984


def run_load(case, res):
    from pyowc import configuration
    first = configuration.load()
    good = copy.deepcopy(dict(first))
    for key in list(good):
        for how in ("set", "nested", "delete"):
            for keep in (False, True):
                c = configuration.load()
                d = configuration.load() if keep else None
                if how == "set":
                    c[key] = "changed"
                elif how == "delete":
                    del c[key]
                else:
                    mutate(c[key])
                for n, x in (("later", configuration.load()), ("earlier", first), ("kept", d)):
                    if x is not None and dict(x) != good:
                        bad = [k for k in good if k not in x or x[k] != good[k]]
                        res.bad("%s of %s changes the %s default configuration: %s" % (how, key, n, bad))
                        return
                res.count("evaluations")
                res.nontrivial(key, how, keep)
    configuration.print_cfg(first)
    if dict(first) != good:
        res.bad("printing changes the configuration")


def run(case):
    res = Result()
    if "order" in case:
        run_order(case, res)
    elif "random" in case:
        run_random(case, res)
    else:
        run_load(case, res)
    return res
