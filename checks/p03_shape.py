"""P03: the mapped file describes exactly the profiles of the source, aligned."""
import itertools

import numpy as np

import pipe
import world as W
from engine import Result

PROP = "P03"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of sources (conditions of every profile, orders, numbers, level counts) and of the splits of each into successive mapping runs, on the real code"
NOTE = "Every run of every history is checked against the structural invariant; the values themselves are P04's and P01's."
RULE = ("one case = one family of sources with one kind of reference data; a transition is a mapping run after some of the profiles were added; states are distinct mapped files; "
        "non-trivial = distinct (conditions of the profiles, order, levels mapped)")
ASSUMPTIONS = ["the source never gets fewer levels than the mapped file already has"]
BATCH = 1
NAN = np.nan
F = "3901234"
COND = {"ok": None, "nopos": ("lat",), "nolong": ("long",), "nodate": ("date",), "nopres": ("pres",), "nosal": ("sal",), "noptmp": ("ptmp",), "far": "far", "short": "short", "holes": "holes", "one": "one", "fresh": "fresh", "salty": "salty"}
REF = {"normal": 0.0, "fresh": -4.75, "salty": 5.35, "sparse": 0.0, "none": 0.0, "both": 0.0}
EAST = 14.0


def setup(tier):
    pipe.shared_topo()


def cases(tier):
    n = 3 if tier == "quick" else 4
    small = ["ok", "nopos", "nopres", "nosal", "far", "short", "holes"]
    for ref in REF:
        for first in (small + ["nodate"] if tier == "quick" else COND):
            yield {"family": "conditions", "ref": ref, "first": first, "n": n if ref in ("normal", "salty") else max(3, n - 1) if ref == "both" else n - 1, "cond": small if tier == "quick" else list(COND)}
    for ref in ("normal", "both"):
        for n, levels in ((130, 8), (40, 33), (3, 300), (262, 5)) if tier == "quick" else ((300, 20), (130, 70), (12, 1030)):
            yield {"family": "many", "ref": ref, "n": n, "levels": levels}
    for ref in ("normal", "fresh", "both"):
        for k in range(len(NUMBERS)):
            yield {"family": "orders", "ref": ref, "numbers": k, "n": 4}
    for ref in ("normal", "salty", "both"):
        for first in range(1, len(pipe.LEVELS) + 1, 1 if tier == "thorough" else 2):
            yield {"family": "levels", "ref": ref, "first": first}


NUMBERS = [(1, 2, 3, 4), (7, 50, 51, 120), (0, 3, 2048, 2049)]


def make(no, cond, k):
    p = pipe.profile(3 * k + 2)
    p["no"] = no
    how = COND[cond]
    if REFNOW == "both" and k % 2:
        p["long"] += EAST
    if isinstance(how, tuple):
        for q in how:
            if q in ("lat", "long", "date"):
                p[q] = NAN
            else:
                p[q][:] = NAN
    elif how == "far":
        p.update(lat=52.0, long=210.0)
    elif how in ("short", "one"):
        for q in ("pres", "ptmp", "sal", "temp"):
            p[q] = p[q][:5] if how == "short" else p[q][4:5]
    elif how == "holes":
        p["sal"][[3, 5]] = NAN
        p["pres"][4] = NAN
        p["ptmp"][6] = NAN
    elif how in ("fresh", "salty"):
        p["sal"] += 9.0 if how == "salty" else -9.0
    return p


def check(m, profs, levels):
    """text of the first breach"""
    bad = pipe.shape_problem(m, [p["no"] for p in profs], levels)
    if bad:
        return bad, None
    cols = pipe.columns(m)
    done = []
    for p in sorted(profs, key=lambda p: p["no"]):
        c = cols[p["no"]]
        n = len(p["pres"])
        e = [~np.isnan(c[q]) for q in ("la_mapsalerrors", "la_noise_sal", "la_signal_sal")]
        s = ~np.isnan(c["la_mapped_sal"])
        for i in range(levels):
            have = [bool(x[i]) for x in e]
            if len(set(have)) != 1:
                return "profile %s level %d has only some of error, noise and signal variance: %s" % (p["no"], i, have), None
            if s[i] and not have[0]:
                return "profile %s level %d has a mapped salinity without error" % (p["no"], i), None
            if have[0] and not s[i]:
                # allowed only outside 30..40: the reference data must be there
                if REFNOW not in ("fresh", "salty", "sparse", "both"):
                    return "profile %s level %d has error %r but no mapped salinity" % (p["no"], i, c["la_mapsalerrors"][i]), None
            if s[i] and not 30 <= c["la_mapped_sal"][i] <= 40:
                return "profile %s level %d has mapped salinity %r" % (p["no"], i, c["la_mapped_sal"][i]), None
            if have[0]:
                if i >= n or not np.isfinite(p["sal"][i]) or not np.isfinite(p["pres"][i]) or not np.isfinite(p["ptmp"][i]):
                    return "profile %s level %d is mapped without data" % (p["no"], i), None
                if c["la_ptmp"][i] != p["ptmp"][i]:
                    return "profile %s level %d: potential temperature %r instead of %r" % (p["no"], i, c["la_ptmp"][i], p["ptmp"][i]), None
                done.append((p["no"], i, bool(s[i])))
            elif not np.isnan(c["la_ptmp"][i]) and (i >= n or c["la_ptmp"][i] != p["ptmp"][i]):
                return "profile %s level %d: potential temperature %r, not the float's" % (p["no"], i, c["la_ptmp"][i]), None
    return None, done


REFNOW = "normal"


def run(case):
    global REFNOW
    res = Result()
    REFNOW = case["ref"]
    ref = pipe.reference(14 if case["ref"] != "sparse" else 6, dsal=REF[case["ref"]]) if case["ref"] != "none" else {}
    if case["ref"] == "both":           # too fresh in the west, too salty in the east
        ref = pipe.reference(10, dsal=REF["fresh"])
        for key, casts in pipe.reference(10, (pipe.HERE[0], pipe.HERE[1] + EAST), first=10, dsal=REF["salty"]).items():
            ref.setdefault(key, []).extend(casts)
    with pipe.world(ref) as w:
        cfg = w.config()
        seen = set()

        def history(batches, label):
            """profiles arriving in these batches, a run after each"""
            import os
            p = pipe.path(cfg, "map", F)
            if os.path.exists(p):
                os.remove(p)
            have, levels = [], 0
            for b in batches:
                have = have + b
                levels = max([levels] + [len(q["pres"]) for q in have])
                w.add_float(F, have, levels=levels)
                pipe.do_map(cfg, F)
                m = pipe.read(p)
                res.count("evaluations")
                res.count("transitions")
                res.count("traces_validated_against_impl")
                bad, done = check(m, have, levels)
                if bad:
                    res.bad("%s, batches %s: %s" % (label, [[q["no"] for q in x] for x in batches], bad))
                    return False
                s = pipe.state_of(m)
                if s not in seen:
                    seen.add(s)
                    res.count("states")
                res.nontrivial(case["family"], case["ref"], label, done)
            return True

        if case["family"] == "conditions":
            for word in itertools.product([case["first"]], *[case["cond"]] * (case["n"] - 1)):
                profs = [make(k + 1, c, k) for k, c in enumerate(word)]
                for cut in range(case["n"]):
                    if not history([x for x in (profs[:cut], profs[cut:]) if x], str(word)):
                        return res
        elif case["family"] == "many":
            n = case["n"]
            profs = []
            for k in range(n):
                p = make(2 * k + 1 + k // 50, ("ok", "nosal", "ok", "far", "short", "ok", "nopos", "holes", "ok")[k % 9], k % 4)
                if case["levels"] > 8:
                    q = pipe.profile(3 * (k % 4) + 2, levels=np.linspace(8.0, 1500.0, case["levels"]))
                    for v in ("pres", "ptmp", "sal", "temp"):
                        q[v][np.isnan(np.interp(np.arange(case["levels"]), np.linspace(0, case["levels"] - 1, len(p[v])), p[v]))] = NAN
                        p[v] = q[v]
                profs.append(p)
            mixed = [profs[k * 7 % n] for k in range(n)] if n % 7 else profs[::-1]
            for batches in ([mixed], [mixed[:n // 2], mixed[n // 2:]], [mixed[k:k + n // 3 + 1] for k in range(0, n, n // 3 + 1)]):
                if not history(batches, "many"):
                    return res
        elif case["family"] == "orders":
            nos = NUMBERS[case["numbers"]]
            for perm in itertools.permutations(range(4)):
                profs = [make(nos[k], ("ok", "nosal", "far", "short")[k] if case["numbers"] % 2 else "ok", k) for k in perm]
                for cut in range(4):
                    if not history([x for x in (profs[:cut], profs[cut:]) if x], "order %s" % (perm,)):
                        return res
        else:
            # level counts of successive profiles
            for second in range(1, len(pipe.LEVELS) + 1):
                for third in (1, 4, 8):
                    profs = []
                    for k, n in enumerate((case["first"], second, third)):
                        p = make(k + 1, "ok", k)
                        for q in ("pres", "ptmp", "sal", "temp"):
                            p[q] = p[q][-n:] if k % 2 == 0 else p[q][:n]
                        profs.append(p)
                    for batches in ([profs], [profs[:1], profs[1:]], [profs[:2], profs[2:]], [[profs[0]], [profs[1]], [profs[2]]]):
                        if not history(batches, "levels %s" % ((case["first"], second, third),)):
                            return res
    return res
