"""Design-level model checking (spec/BETree) and behaviours enumerated by the specification (spec/BEGen)."""
import json
import os
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction

from belib import VERIF, Scn, run_tlc

ASSUMPTIONS = [
    "inputs stay within the documented language: declared attributes, event values of the declared type, no duplicate event keys",
    "integers within +-(2^63-10), fractional numbers with at most 6 decimals below 10^9",
    "segment lists are ordered by id; limits and windows of frequency caps are not negative",
    "radius conditions closer than about 3 m to the boundary are not judged",
    "single-threaded use"]

HIST = ["hi", "hf", "hl", "hs", "hm", "he", "hb", "hj", "hn", "hw", "hv", "h2", "h3", "hr"]
TOKS = ["bool", "cmp", "list", "str", "fun"]


def _h(head, depth, quick, thorough, kinds=HIST):
    """(family, depth, quick scenarios, thorough scenarios)"""
    return [(head + k, depth, quick, thorough) for k in kinds]


# per property: (family, depth, scenarios of a quick run, of a thorough run; 0 = all)
FAMILIES = {
    "P01": _h("hist_", 3, 30, 2000) + [("leaf", 1, 0, 0), ("share", 1, 60, 0), ("ident", 3, 30, 2000)],
    "P02": _h("pair_", 3, 45, 2000),
    "P03": [("leaf", 1, 0, 0)],
    "P04": [("conn", 1, 0, 0), ("conn3", 1, 60, 3000)],
    "P05": [("share", 1, 350, 0)],
    "P06": _h("pair_", 3, 35, 2000),
    "P07": [("spell", 1, 0, 0), ("keep", 3, 150, 0), ("keep", 4, 100, 6000)],
    "P08": [("calls", 3, 250, 0), ("calls", 4, 150, 12000)],
    "P09": [("req", 1, 0, 0), ("report", 3, 100, 0)],
    "P10": [("report", 3, 300, 0), ("report", 4, 100, 6000)] + _h("hist_", 3, 15, 1000),
    "P11": _h("phase_", 1, 60, 2000) + [("calls", 3, 100, 0)],
    "P12": [("ident", 2, 0, 0), ("ident", 3, 150, 0), ("keep", 3, 100, 0)],
    "P13": _h("grow_", 3, 80, 0) + _h("grow_", 4, 60, 4000),
    "P14": [("caps", 1, 0, 0), ("caps2", 1, 20, 0), ("caps2", 6, 20, 0)],
    "P15": [("segs", 1, 0, 0)],
    "P16": [("pats", 1, 0, 0)],
    "P17": [("tok_" + k, 3, 60, 0) for k in TOKS] + [("tok_" + k, 2, 40, 0) for k in TOKS],
    "P18": [("keep", 3, 100, 0), ("calls", 3, 250, 0), ("calls", 4, 150, 12000), ("report", 3, 60, 0)],
    "P19": _h("hist_", 3, 40, 2000),
    "P20": [("decl", 1, 0, 0)] + _h("clear_", 3, 40, 0) + _h("clear_", 4, 25, 3000),
    "P22": [("learn", 1, 200, 0)],
    "P21": [("show", 1, 0, 0), ("showleaf", 1, 0, 0), ("copy", 1, 0, 0)],
}


def _frac(l):
    return l[0] * 10 ** 18 + l[1] * 10 ** 12 + l[2] * 10 ** 6 + l[3] + Fraction(l[4], 10 ** 6)


def _txt(b):
    return bytes(b).decode("latin-1")


def scenario(name, steps):
    """calls printed by the specification -> scenario"""
    s = Scn(name)
    for st in steps:
        a = st["a"]
        t = st.get("t")
        tw = (st["tw"]["m"], st["tw"]["g"]) if "tw" in st else None
        if a == "make":
            s.tree(t, st["cap"], st["part"])
        elif a == "var":
            lo = _frac(st["lo"][0]) if st["lo"] else None
            hi = _frac(st["hi"][0]) if st["hi"] else None
            if st["ty"] in ("i", "il") and lo is not None:
                lo, hi = int(lo), None if hi is None else int(hi)
            s.var(t, st["ty"], _txt(st["nm"]), st["und"], lo, hi, st["cap"] or None)
        elif a == "ins":
            s.ins(t, st["id"], _txt(st["e"]), _consts(st["cs"]))
        elif a == "msub":
            s.msub(t, st["slot"], st["id"], _txt(st["e"]), _consts(st["cs"]))
        elif a == "vart":
            s.vart(t, _txt(st["e"]))
        elif a == "empty":
            s.empty(t)
        elif a == "doms":
            s.doms(t)
        elif a == "ranges":
            s.ranges(t, tw)
        elif a == "defs":
            s.defs(t, st["n"])
        elif a == "show":
            s.show(t, st["slot"])
        elif a == "dup":
            s.dup(t, st["slot"], st["to"], st["id"])
        elif a == "order":
            s.order(t, st["slots"])
        elif a == "isub":
            s.isub(t, st["slot"])
        elif a == "chb":
            s.chb(t, _txt(st["e"]))
        elif a == "search":
            s.search(t, _txt(st["e"]), st["reuse"], tw)
        elif a == "exists":
            s.exists(t, _txt(st["e"]), tw)
        elif a == "ask":
            s.ask(t, st["slot"], st["ops"], tw)
        elif a == "drop":
            s.drop(st["slot"])
        elif a in ("event", "hold"):
            fs = []
            for ix, nm, ty, v in st["fs"]:
                if ty in ("i", "f"):
                    v = _frac(v)
                    v = int(v) if ty == "i" else v
                elif ty == "il":
                    v = [int(_frac(x)) for x in v]
                elif ty == "s":
                    v = _txt(v)
                elif ty == "sl":
                    v = [_txt(x) for x in v]
                fs.append((ix, _txt(nm), ty, v))
            if a == "hold":
                s.hold(t, st["slot"], fs)
            else:
                s.event(t, st["ops"], fs, tw)
        elif a == "walk":
            s.walk(t, tw)
        elif a == "free":
            s.free(t)
        elif a == "ledger":
            s.ledger()
        else:
            raise ValueError(a)
    return s


def _consts(cs):
    return [(_txt(c["nm"]), int(_frac(c["x"]))) for c in cs]


_COUNT = {}


def generate(fam, depth, want, seed, work):
    """scenarios of one family: all, or about `want` of them picked by seed"""
    def tlc(mod, res, tag):
        rc, out = run_tlc("BEGen", "BEGen.cfg", work, workers=2, heap="6g", tag="%s%d%s" % (fam, depth, tag),
                          env={"GEN_FAM": fam, "GEN_DEPTH": str(depth), "GEN_MOD": str(mod), "GEN_RES": str(res)})
        if rc != 0:
            raise RuntimeError("the generator failed on %s:\n%s" % (fam, "\n".join(l for l in out.splitlines() if '"CASE|' not in l)[-3000:]))
        return out
    mod = 1
    if want:
        total = SIZES.get((fam, depth)) or want
        mod = max(1, total // want)
    out = tlc(mod, seed % mod, "g")
    scns = []
    for line in out.splitlines():
        if line.startswith('"CASE|'):
            o = json.loads(json.loads(line)[5:])
            scns.append(scenario("%s_%s" % (fam, "_".join(str(x) for x in o["h"])), o["s"]))
    m = re.search(r"(\d+) states generated, (\d+) distinct", out)
    scns.sort(key=lambda s: s.name)
    return scns, int(m.group(1)), int(m.group(2))


# complete histories of the large families (checked by `check.py --setup`)
SIZES = {}
for _k in HIST:
    for _f in ("hist_", "grow_", "pair_"):
        SIZES[(_f + _k, 3)] = 2 * 14 * 13 * 12
        SIZES[(_f + _k, 4)] = 2 * 14 * 13 * 12 * 11
    SIZES[("phase_" + _k, 1)] = 90 * 14 * 13 * 12
    SIZES[("clear_" + _k, 3)] = 11 ** 3
    SIZES[("clear_" + _k, 4)] = 11 ** 4
SIZES.update({("conn3", 1): 6400, ("share", 1): 1223, ("ident", 2): 528, ("ident", 3): 5280, ("calls", 3): 6650, ("keep", 3): 15 ** 3, ("keep", 4): 15 ** 4, ("learn", 1): 3330, ("calls", 4): 120000,
              ("report", 3): 1728, ("report", 4): 20736, ("caps2", 1): 50, ("caps2", 6): 300})
for _k, _n in zip(TOKS, (8, 9, 9, 9, 9)):
    SIZES[("tok_" + _k, 2)] = _n ** 2 * 4
    SIZES[("tok_" + _k, 3)] = _n ** 3 * 4


# design model: universe of a quick run; (expressions per set, structural steps, 1 in how many sets)
DESIGN = {"P01": "int", "P02": "float", "P04": "str", "P05": "int", "P06": "list", "P10": "str", "P13": "slist", "P19": "list"}
UNIVERSES = ["int", "float", "list", "str", "slist"]
SETS2, SETS3 = 66, 220


def run(prop, tier, seed, work):
    """BETree on some (quick) or all (thorough) sets of two expressions and a sample of sets of three"""
    if prop == "P22":
        return run_learn(tier, seed, work)
    if prop not in DESIGN:
        return {"states": 0, "transitions": 0}
    if tier == "quick":
        jobs = [(DESIGN[prop], 2, 2, 16 if DESIGN[prop] == "slist" else 8)]
    else:
        jobs = [(u, 2, 2, 1) for u in UNIVERSES] + [(u, 2, 3, 16) for u in UNIVERSES] + [(u, 3, 2, 40) for u in UNIVERSES]
    info = {"states": 0, "transitions": 0, "runs": []}
    for u, n, steps, mod in jobs:
        rc, out = run_tlc("BETree", "BETree.cfg", work, workers=2 if tier == "quick" else 4, heap="3g", tag="d%s%d%d" % (u, n, steps),
                          env={"BT_U": u, "BT_N": str(n), "BT_STEPS": str(steps), "BT_MOD": str(mod), "BT_RES": str(seed % mod)})
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", out)
        if rc != 0 or not m:
            info["error"] = "BETree %s %d %d: %s" % (u, n, steps, out[-3000:])
            return info
        info["transitions"] += int(m.group(1))
        info["states"] += int(m.group(2))
        info["runs"].append({"universe": u, "expressions": n, "structural_steps": steps, "sets": "1/%d" % mod,
                             "distinct_states": int(m.group(2)), "complete": True})
    return info


def run_learn(tier, seed, work):
    """BELearnMC: one type and one expression (quick), every type and every two expressions (thorough)"""
    types = ["i", "f", "il", "s", "sl"]
    jobs = [(types[seed % 5], 1)] if tier == "quick" else [(t, 2) for t in types]
    info = {"states": 0, "transitions": 0, "runs": []}
    for ty, n in jobs:
        rc, out = run_tlc("BELearnMC", "BELearnMC.cfg", work, workers=2 if tier == "quick" else 6, heap="3g", tag="l%s%d" % (ty, n),
                          env={"BL_TY": ty, "BL_N": str(n)})
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", out)
        if rc != 0 or not m:
            info["error"] = "BELearnMC %s %d: %s" % (ty, n, out[-3000:])
            return info
        info["transitions"] += int(m.group(1))
        info["states"] += int(m.group(2))
        info["runs"].append({"type": ty, "expressions": n, "distinct_states": int(m.group(2)), "complete": True})
    return info


def behaviours(prop, tier, seed, work):
    """(label, scenarios) of the families of a property; the quick run merges them to save start-up time"""
    fams = FAMILIES.get(prop, [])
    jobs = [(f, d, q if tier == "quick" else t) for f, d, q, t in fams]
    if tier == "quick":
        with ThreadPoolExecutor(4) as ex:
            res = list(ex.map(lambda j: generate(j[0], j[1], j[2], seed, work), jobs))
        alls = [s for r in res for s in r[0]]
        yield "enumerated", alls, sum(r[1] for r in res), sum(r[2] for r in res)
        return
    for f, d, w in jobs:
        scns, gen, dist = generate(f, d, w, seed, work)
        yield "enumerated:%s/%d" % (f, d), scns, gen, dist
