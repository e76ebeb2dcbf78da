"""P04: which levels are mapped, and with what result."""
import itertools

import numpy as np

import model
import pipe
import world as W
from engine import Result
from util import subsets

PROP = "P04"
LEVEL = "exploration"
TECHNIQUE = "exhaustive exploration of bounded scenario families on the real mapping stage, every level compared with a reference model of the method"
NOTE = "Families of reference casts (each cast in each of a few conditions), float level patterns, settings and outliers are enumerated completely; the model shares no code with pyowc."
RULE = ("one case = one setting of the configuration with a family of reference data; evaluations are float profiles mapped by the real stage, traces are profiles compared level by level with the model; "
        "non-trivial = distinct (mapped levels, casts per level)")
ASSUMPTIONS = ["not more casts around the profile than the maximum (the selection is P17's)", "reference salinities of a level are not all equal",
               "no crossing exactly at the allowed pressure difference or exactly midway between two",
               "reference data deeper than the deepest float pressure plus the allowed difference are not used"]
BATCH = 1
NAN = np.nan
F = "3901234"
N = 8
CONDITIONS = "NSGD"
CONFIGS = [{}, {"MAP_USE_PV": 1}, {"MAP_P_DELTA": 60, "MAP_P_EXCLUDE": 480.0},
           {"MAP_USE_PV": 1, "MAPSCALE_LATITUDE_LARGE": 1.1, "MAPSCALE_LONGITUDE_LARGE": 0.45, "MAPSCALE_LATITUDE_SMALL": 0.7, "MAPSCALE_LONGITUDE_SMALL": 0.3,
            "MAPSCALE_PHI_LARGE": 0.5, "MAPSCALE_PHI_SMALL": 0.2, "MAPSCALE_AGE_LARGE": 7, "MAPSCALE_AGE_SMALL": 2.5, "MAP_P_EXCLUDE": 0},
           {"MAPSCALE_AGE_LARGE": 3, "MAPSCALE_AGE_SMALL": 1, "MAPSCALE_LATITUDE_SMALL": 4, "MAPSCALE_LONGITUDE_SMALL": 1, "MAP_P_EXCLUDE": 100.0001, "MAP_P_DELTA": 500}]


def setup(tier):
    pipe.shared_topo()


def condition(c, what):
    if what == "S":             # ends above the deeper levels
        for q in ("pres", "ptmp", "sal"):
            c[q] = c[q][:5]
    elif what == "G":           # a hole
        c["sal"][3:6] = NAN
    elif what == "D":           # warmer water: the same temperature some hundred dbar deeper
        c["ptmp"] = c["ptmp"] + 1.1
        c["sal"] = W.sal_of_theta(c["ptmp"]) + 0.02
    elif what == "O":           # far off
        c["sal"] = c["sal"] + 0.9
    elif what == "o":
        c["sal"] = c["sal"] - 1.3
    elif what == "B":           # bad throughout
        c["sal"][:] = NAN
    elif what == "T":           # temperature missing in places
        c["ptmp"][[2, 6]] = NAN
    elif what == "P":           # pressure missing in places
        c["pres"][[1, 4]] = NAN
    elif what == "X":           # another ocean
        c["lat"] += 9.0
    elif what == "I":           # an inversion: one temperature at several depths
        c["ptmp"][4] += 2.6
        c["sal"][4] += 0.1
    return c


def cases(tier):
    for k in range(len(CONFIGS)):
        for base in range(4):
            yield {"family": "counts", "cfg": k, "n": N if tier == "quick" else 10, "base": base}
        yield {"family": "levels", "cfg": k, "kinds": "spt"}
        for a in range(3):
            yield {"family": "outliers", "cfg": k, "part": a}
        yield {"family": "range", "cfg": k}
        yield {"family": "places", "cfg": k}
        yield {"family": "single", "cfg": k}
    for k in (0, 1, 3):
        for n in (12, 70, 290) if tier == "quick" else (25, 33, 64, 65, 100, 128, 129, 200, 256, 257, 299):
            yield {"family": "crowd", "cfg": k, "n": n}
    if tier == "thorough":
        for k in (0, 1, 2, 3):
            for pre in itertools.product("NSGDI", repeat=2):
                yield {"family": "assign", "cfg": k, "pre": "".join(pre)}


def compositions(total, parts):
    if parts == 1:
        yield (total,)
        return
    for k in range(total + 1):
        for rest in compositions(total - k, parts - 1):
            yield (k,) + rest


def worlds(case):
    """(casts, profiles) pairs"""
    k = case["family"]
    if k == "counts":
        for i, comp in enumerate(compositions(case["n"], 4)):
            if i % 4 == case["base"]:
                word = "".join(c * m for c, m in zip(CONDITIONS, comp))
                # the conditions fall on different casts each time
                casts = [condition(pipe.hist_cast((j * 3 + i) % case["n"] if case["n"] % 3 else j), w) for j, w in enumerate(word)]
                yield word, casts, [pipe.profile(4)]
    elif k == "assign":
        for word in itertools.product("NSGDI", repeat=5):
            word = case["pre"] + "".join(word)
            yield word, [condition(pipe.hist_cast(j), w) for j, w in enumerate(word)], [pipe.profile(4)]
    elif k == "levels":
        lev = np.array([99.9, 100.0, 480.0, 760.0, 1100.0])
        casts = [condition(pipe.hist_cast(j), "NNNSGDNNTP"[j]) for j in range(10)]
        profs = []
        for word in itertools.product("gspt", repeat=4):
            p = pipe.profile(4, levels=lev)
            for j, x in enumerate(word):
                q = {"s": "sal", "p": "pres", "t": "ptmp"}.get(x)
                if q:
                    p[q][j] = NAN
            p["no"] = len(profs) + 1
            profs.append(p)
        for a in range(0, len(profs), 64):
            yield "levels%d" % a, [dict(c) for c in casts], profs[a:a + 64]
    elif k == "outliers":
        for n in (9, 11, 12, 14):
            for word in sorted(set("".join(w) for r in range(3) for w in itertools.product("Oo", repeat=r))):
                if len(word) % 3 != case["part"]:
                    continue
                for at in range(0, n, 2):
                    full = ["N"] * n
                    for j, w in enumerate(word):
                        full[(at + 3 * j) % n] = w
                    yield "".join(full), [condition(pipe.hist_cast(j), w) for j, w in enumerate(full)], [pipe.profile(4)]
    elif k == "range":
        for ds in (-6.0, -4.9, -4.6, 4.9, 5.0, 5.05, 5.6, 9.0):
            yield "dsal%g" % ds, [pipe.hist_cast(j, dsal=ds) for j in range(9)], [pipe.profile(4), pipe.profile(5)]
        for ds in ("mixed",):
            yield ds, [pipe.hist_cast(j, dsal=5.2 if j % 2 else 5.0) for j in range(9)], [pipe.profile(4), pipe.profile(5)]
    elif k == "places":
        for center in ((-20.3, 70.4), (0.4, 12.0), (-0.2, 130.0), (45.0, 0.3), (-55.0, 359.7), (62.0, 179.8), (10.0, 10.0), (-40.0, 183.0), (-9.7, 40.2), (71.0, 89.9)):
            casts = [pipe.hist_cast(j, center) for j in range(12)]
            for c in casts:
                c["long"] %= 360.0
            profs = [pipe.profile(j, center) for j in (0, 2, 5)]
            yield "%s" % (center,), casts, profs
    elif k == "crowd":          # as many casts and levels as in reality
        n = case["n"]
        for size, deep in ((40, 12), (1, 330)) if n == 12 else ((1, 16 if n > 150 else 30),):
            casts = []
            for i in range(n):
                c = pipe.hist_cast(i)
                c.update({q: v for q, v in W.cast(c["lat"], c["long"], c["date"], 15.0 + 1700.0 * (np.arange(40 + i % 90) + 0.3 * pipe.wobble(i, 1.0)) / (40 + i % 90),
                                                  dtheta=pipe.wobble(i + 0.7, 0.08), dsal=0.01 * (c["lat"] - pipe.HERE[0]) + pipe.wobble(3 * i, 0.012)).items() if q in ("pres", "ptmp", "sal")})
                casts.append(condition(c, "S" if i % 11 == 0 else "D" if i % 13 == 0 else "T" if i % 17 == 0 else "N"))
            yield "crowd %d %d %d" % (n, size, deep), casts, [pipe.profile(1 + j, levels=8.0 + 1600.0 * np.arange(deep)[::1] / deep) for j in range(size)]
    elif k == "single":
        for word in ("NNNNNB", "NNNNNNB", "NNNNNNX", "NNNNNX", "NNNNNNNI", "IIIIIII", "TTTTTTT", "PPPPPPP", "SSSSSSS", "GGGGGGG", "DDDDDDD", "BBBBBBB", "XXXXXXX", "NNNNNI", "NNNN", ""):
            yield word, [condition(pipe.hist_cast(j), w) for j, w in enumerate(word)], [pipe.profile(4), pipe.profile(5, levels=pipe.LEVELS[3:])]


def run(case):
    res = Result()
    for name, casts, profs in worlds(case):
        ref = {}
        for i, c in enumerate(casts):
            ref.setdefault((pipe.KINDS[i % 3], W.box_number(c["lat"], c["long"])), []).append(c)
        with pipe.world(ref) as w:
            cfg = w.config(**CONFIGS[case["cfg"]])
            w.add_float(F, profs)
            pipe.do_map(cfg, F)
            m = pipe.mapped(cfg, F)
        n = max(len(p["pres"]) for p in profs)
        bad = pipe.shape_problem(m, [p["no"] for p in profs], n)
        if bad:
            res.bad("%s: %s" % (name, bad))
            return res
        cols = pipe.columns(m)
        for p in profs:
            res.count("evaluations")
            try:
                want = model.map_profile(p, casts, cfg)
            except model.Ambiguous:
                res.count("ambiguous")
                continue
            bad = model.compare(cols[p["no"]], want, p, cfg)
            if bad:
                res.bad("%s, profile %s: %s" % (name, p["no"], bad))
                return res
            res.count("traces_validated_against_impl")
            res.nontrivial(case["family"], name, tuple(x is not None for x in want))
    return res
