"""P06: a float's own profiles in the Argo reference data have no influence."""
import itertools
import os

import numpy as np

import pipe
import world as W
from engine import Result

PROP = "P06"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of the assignments of reference profiles to floats and of the orders in which these floats are mapped, on the real code, each result compared with reference files without the float's own profiles"
NOTE = "All assignments of the profiles of one or two Argo reference files to the floats involved; the oracle is a run on files from which the profiles were really removed."
RULE = ("one case = one family of assignments; a transition is a mapping of one of the floats after some others in the same process; a state is the mapped content; "
        "non-trivial = distinct (assignment, float, mapped content)")
ASSUMPTIONS = ["a source names a float if it contains its number"]
BATCH = 1
NAN = np.nan
NAMES = {"A": "3901234", "B": "4905678", "C": "1902333"}
# ways a source names the float
STYLE = ["{0}_{1:03d}", "argo_{0}_{1}", "{0}", "R{0}_{1:03d}.nc", "IF_{0}"]
NAMELESS = ["", "   ", "unknown"]


def setup(tier):
    pipe.shared_topo()


def cases(tier):
    big = tier == "thorough"
    for style in range(len(STYLE) if big else 3):
        for first in "ABC":
            for second in "ABC":
                yield {"family": "one file", "style": style, "pre": first + second, "n": 4 if not big else 6}
    for style in range(2):
        for first in "ABC":
            yield {"family": "two files", "style": style, "pre": first, "n": 3 if not big else 4}
    for order in ("ABAB", "BABA", "AABB", "CAB", "BAC", "ACBA") + (("ABCABC", "CBACBA", "BBBAAA") if big else ()):
        for style in range(2):
            yield {"family": "sequence", "style": style, "order": order}
    yield {"family": "others", "style": 0}
    yield {"family": "others", "style": 1}


def build(words, style, others=None):
    """reference data: words = {box number: word}, one argo cast per letter"""
    ref = {}
    k = 0
    for n, (box, word) in enumerate(sorted(words.items())):
        for x in word:
            c = pipe.hist_cast(k, AT[box], spread=0.9, dsal=0.004 * k)
            # every one matters: salinities are all different
            c["source"] = STYLE[(style + (k if style else 0)) % len(STYLE)].format(NAMES[x], k) if x in NAMES else NAMELESS[k % len(NAMELESS)]
            c["owner"] = x
            ref.setdefault(("argo", box), []).append(c)
            k += 1
    for i in range(5):
        c = pipe.hist_cast(40 + i, pipe.HERE, spread=1.0)
        c["source"] = (others or "src%d") % i if "%" in (others or "src%d") else others
        kind = "ctd" if i % 2 else "bot"
        ref.setdefault((kind, W.box_number(c["lat"], c["long"])), []).append(c)
    return ref


AT = {}
for _lat, _lon in ((-21.4, 71.5), (-18.4, 68.6)):
    AT[W.box_number(_lat, _lon)] = (_lat, _lon)
B1, B2 = sorted(AT)


def without(ref, x):
    out = {}
    for (kind, box), casts in ref.items():
        keep = [c for c in casts if kind != "argo" or c["owner"] != x]
        if keep:
            out[kind, box] = keep
    return out


def map_in(w, x, over=()):
    cfg = w.config(**dict(over))
    p = pipe.path(cfg, "map", NAMES[x])
    if os.path.exists(p):
        os.remove(p)
    w.add_float(NAMES[x], [pipe.profile(k) for k in (1, 3)])
    pipe.do_map(cfg, NAMES[x])
    return pipe.read(p)


def run(case):
    res = Result()
    memo = {}

    def scenario(words, order, others=None, over=()):
        ref = build(words, case["style"], others)
        with pipe.world(ref) as w:
            for i, x in enumerate(order):
                got = map_in(w, x, over)
                key = (tuple(sorted(words.items())), x, others)
                if key not in memo:
                    with pipe.world(without(ref, x)) as v:
                        memo[key] = map_in(v, x, over)
                bad = pipe.mapped_diff(got, memo[key])
                if not bad and set(pipe.places(got)) != set(pipe.places(memo[key])):
                    bad = "reference positions differ"
                res.count("transitions")
                res.count("evaluations")
                if bad:
                    res.bad("argo profiles of the floats %s, mapping %s after %s: %s" % (sorted(words.items()), x, order[:i], bad))
                    return False
                res.count("traces_validated_against_impl")
                res.nontrivial(sorted(words.items()), x, pipe.state_of(got))
                s = pipe.state_of(got)
                if s not in states:
                    states.add(s)
                    res.count("states")
        return True

    states = set()
    if case["family"] == "one file":
        for n in range(0, case["n"] - 1):
            for rest in itertools.product("ABC", repeat=n):
                word = case["pre"] + "".join(rest)
                if not scenario({B1: word}, "AB"):
                    return res
        if case["pre"] in ("AA", "BB", "CC"):
            for n in (1, 8):
                if not scenario({B1: case["pre"][0] * n}, "ABA"):
                    return res
    elif case["family"] == "two files":
        for rest in itertools.product("ABC", repeat=case["n"]):
            word = case["pre"] + "".join(rest)
            if not scenario({B1: word[:2], B2: word[2:]}, "AB"):
                return res
    elif case["family"] == "sequence":
        for w1 in ("ABC", "AAC", "BBA", "CAAB", "A", "B"):
            for w2 in ("CB", "AB", "BBCA"):
                if not scenario({B1: w1, B2: w2}, case["order"]):
                    return res
    else:
        for others in (NAMES["A"] + "_%d", NAMES["B"], "src%d"):
            for word in ("ABC", "AB", "CC", "A", "xAx", "xxxxBA", "x"):
                for over in ((), (("MAP_USE_PV", 1),), (("CONFIG_MAX_CASTS", 7),)):
                    memo.clear()
                    if not scenario({B1: word}, "ABAC", others, over):
                        return res
    return res
