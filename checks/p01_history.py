"""P01: mapping a float in any number of runs gives what one run gives."""
import itertools
import os

import numpy as np

import pipe
import world as W
from engine import Result

PROP = "P01"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state exploration of all histories of arriving profiles and mapping runs, each transition executed by the real code"
NOTE = ("Every order and grouping in which the profiles of the bounded floats can arrive is executed (states merged on the complete content of the mapped file); "
        "trusts the one-run result, which P04 compares with a reference model.")
RULE = ("one case = one float (positions, missing data, level counts, settings) with all its histories; a state is the content of the mapped file plus the profiles available; "
        "a transition makes more profiles available (possibly none) and runs the mapping; non-trivial = distinct state")
ASSUMPTIONS = ["the number of levels of the source file never gets smaller", "states with equal file content have equal futures (the stage reads nothing else that differs)"]
BATCH = 1
NAN = np.nan
F = "3901234"


def setup(tier):
    pipe.shared_topo()


def profiles(kind, n):
    out = [pipe.profile(3 * k + 2) for k in range(n)]
    if kind == "growing":           # later profiles have more levels
        for k, p in enumerate(out):
            for q in ("pres", "ptmp", "sal", "temp"):
                p[q] = p[q][:5 + (3 * k) % 4]
    elif kind == "holes":
        out[0]["lat"] = NAN
        out[1]["sal"][4] = NAN
        out[2]["pres"][:] = NAN
        if n > 3:
            out[3]["ptmp"][:] = NAN
    elif kind == "far":             # no reference data around
        out[1].update(lat=47.0, long=200.0)
        out[-1].update(lat=-21.0, long=91.0)
    elif kind == "shallow":
        out[0] = pipe.profile(2, levels=pipe.LEVELS[:2])
        out[1] = pipe.profile(5, levels=pipe.LEVELS[2:])
    elif kind == "backward":        # profile numbers against time and track
        for k, p in enumerate(out):
            p["no"] = 40 - 7 * k
    elif kind == "same":            # all at the same place
        for p in out:
            p.update(lat=out[0]["lat"], long=out[0]["long"])
    elif kind == "meridian":
        for k, p in enumerate(out):
            p["long"] = (p["long"] - 70.6) % 360.0
    elif kind == "nothing":
        for p in out:
            p.update(lat=60.0, long=150.0)
    return out


def cases(tier):
    big = tier == "thorough"
    for kind in ("plain", "growing", "holes", "far", "shallow", "backward", "same", "meridian", "nothing"):
        for over in ({}, {"MAP_USE_PV": 1}, {"CONFIG_MAX_CASTS": 9}, {"MAPSCALE_LATITUDE_LARGE": 1.0, "MAPSCALE_LONGITUDE_LARGE": 1.0, "MAPSCALE_LATITUDE_SMALL": 0.6}):
            for order in (0, 1):
                if not big and order and over:
                    continue
                n = 4 if big or (kind in ("plain", "holes") and not over) else 3
                yield {"kind": kind, "over": over, "n": n, "reverse": order}
    for n in (21, 70, 131) if not big else (35, 140, 270):
        for over in ({}, {"MAP_USE_PV": 1}):
            yield {"many": n, "over": over}
    if big:
        for kind in ("plain", "holes", "growing", "far"):
            yield {"kind": kind, "over": {}, "n": 5, "reverse": 0}


def blocks(items):
    for k in range(len(items) + 1):
        yield from itertools.combinations(items, k)


def many(case):
    """as many profiles as a float has, in halves, thirds, every other one, backwards and (a few) one by one"""
    res = Result()
    n = case["many"]
    profs = []
    for k in range(n):
        p = pipe.profile(3 * (k % 4) + 2)
        p.update(no=2 * k + 1 - k % 2, lat=p["lat"] + 0.003 * k, long=p["long"] - 0.005 * k, date=2001 + 0.03 * k)
        if k % 19 == 7:
            p["sal"][:] = NAN
        if k % 23 == 11:
            p["long"] = NAN
        for q in ("pres", "ptmp", "sal", "temp"):
            p[q] = p[q][:8 - k % 3]
        profs.append(p)
    everything = list(range(n))
    plans = {"halves": [everything[:n // 2], everything[n // 2:]], "second half first": [everything[n // 2:], everything[:n // 2]],
             "every other": [everything[::2], everything[1::2]], "every third, backwards": [everything[2::3][::-1], everything[1::3], everything[::3][::-1]],
             "last first": [everything[-1:], everything[:-1]], "nothing new": [everything, [], []]}
    if n < 30:
        plans["one by one"] = [[k] for k in everything]
        plans["one by one, mixed"] = [[k * 5 % n] for k in everything] if n % 5 else [[k] for k in everything[::-1]]
    with pipe.world(pipe.reference(26)) as w:
        cfg = w.config(**case["over"])
        out = pipe.path(cfg, "map", F)
        w.add_float(F, profs)
        pipe.do_map(cfg, F)
        want = pipe.read(out)
        places = {p[:2] for p in pipe.places(want)}
        for label, plan in plans.items():
            os.remove(out)
            have = []
            for part in plan:
                have = have + part
                w.add_float(F, [profs[k] for k in have])
                pipe.do_map(cfg, F)
                res.count("transitions")
                res.count("evaluations")
            m = pipe.read(out)
            bad = pipe.mapped_diff(m, want)
            if not bad and {p[:2] for p in pipe.places(m)} != places:
                bad = "other reference positions"
            if bad:
                res.bad("%d profiles, %s: %s" % (n, label, bad))
                return res
            res.count("traces_validated_against_impl")
            res.count("states")
            res.nontrivial(n, label, str(case["over"]))
    return res


def run(case):
    if "many" in case:
        return many(case)
    res = Result()
    profs = profiles(case["kind"], case["n"])
    center = pipe.HERE if case["kind"] != "meridian" else (pipe.HERE[0], 359.8)
    ref = pipe.reference(26, center)
    if case["kind"] == "meridian":
        for casts in ref.values():
            for c in casts:
                c["long"] %= 360.0
    with pipe.world(ref) as w:
        cfg = w.config(**case["over"])
        out = pipe.path(cfg, "map", F)

        def publish(avail):
            sel = [profs[i] for i in sorted(avail, reverse=bool(case["reverse"]))]
            w.add_float(F, sel)
            return max(len(p["pres"]) for p in sel)

        def map_now(before):
            if os.path.exists(out):
                os.remove(out)
            if before is not None:
                with open(out, "wb") as f:
                    f.write(before)
            pipe.do_map(cfg, F)
            with open(out, "rb") as f:
                return f.read()

        single, uses = {}, {}
        for avail in blocks(range(case["n"])):
            if avail:
                publish(avail)
                map_now(None)
                single[frozenset(avail)] = pipe.read(out)
                if len(avail) == 1:
                    uses[profs[avail[0]]["no"]] = {p[:2] for p in pipe.places(single[frozenset(avail)])}
        seen = {}
        frontier = [(frozenset(), None, [])]
        while frontier:
            avail, content, hist = frontier.pop(0)
            rest = [i for i in range(case["n"]) if i not in avail]
            for block in blocks(rest):
                new = avail | set(block)
                if not new:
                    continue
                if not block and hist and hist[-1] == ():
                    continue
                publish(new)
                after = map_now(content)
                m = pipe.read(out)
                res.count("transitions")
                res.count("evaluations")
                h = hist + [block]
                want = single[new]
                bad = pipe.mapped_diff(m, want)
                if not bad:
                    a, b = pipe.places(m), pipe.places(want)
                    if {p[:2] for p in a} != {p[:2] for p in b}:
                        bad = "reference positions %s instead of %s" % (sorted({p[:2] for p in a} ^ {p[:2] for p in b})[:4], "those of one run")
                    else:
                        for p in a:
                            if p[2] not in uses or p[:2] not in uses[p[2]]:
                                bad = "reference position %s is attributed to profile %s, which did not use it" % (p[:2], p[2])
                                break
                if bad:
                    res.bad("profiles arriving as %s: %s" % ([[profs[i]["no"] for i in b] for b in h], bad))
                    return res
                key = (new, pipe.state_of(m))
                if key not in seen:
                    seen[key] = h
                    res.count("states")
                    res.nontrivial(case["kind"], str(case["over"]), sorted(new), key[1])
                    frontier.append((new, after, h))
                res.count("traces_validated_against_impl")
    return res
