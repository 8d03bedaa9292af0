#!/usr/bin/env python3
"""check.py <property> quick|thorough    decide one property
   check.py --setup                       check the tools and the specification
   check.py --replay <file>               run and judge a recorded scenario again
"""
import collections
import copy
import json
import os
import re
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from belib import VERIF, Scn, build_driver, run_driver, judge, run_tlc, trace_line  # noqa: E402
import profiles  # noqa: E402
import models  # noqa: E402

# scenarios of a quick run; about 20 s of TLC on 8 cores
QUICK = {"P01": 480, "P02": 900, "P03": 700, "P04": 520, "P05": 460, "P06": 400, "P07": 1500, "P08": 850, "P09": 600,
         "P10": 650, "P11": 700, "P12": 1500, "P13": 1200, "P14": 560, "P15": 750, "P16": 850, "P17": 1300, "P18": 700,
         "P19": 800, "P20": 450, "P21": 520, "P22": 600}
BATCH = 400
ALWAYS = {"crash"}


def texts(steps):
    """human readable calls"""
    out = []
    for st in steps:
        d = {}
        for k, v in st.items():
            if k in ("e", "nm") and isinstance(v, list):
                v = bytes(v).decode("latin-1")
            if k == "cs":
                v = {bytes(c["nm"]).decode(): c["x"][3] * 1000000 + c["x"][3 + 0] if False else c["x"] for c in v}
            if k in ("tw",) and v.get("m") == "none":
                continue
            d[k] = v
        out.append(d)
    return out


def sub_scenario(s, keep):
    n = Scn(s.name)
    for i in keep:
        n.lines.append(s.lines[i])
        n.steps.append(s.steps[i])
    return n


def shrink(exe, s, kind, work, budget=45):
    """smaller scenario with a violation of the same kind"""
    t0 = time.time()
    keep = list(range(len(s.steps)))
    fixed = {"make", "var"}

    def groups(size):
        # removable units: whole indexes first, then runs of calls
        idx = [i for i in keep if s.steps[i]["a"] not in fixed]
        for i in range(0, len(idx), size):
            yield set(idx[i:i + size])

    def try_all(cands):
        cands = [c for c in cands if c]
        if not cands:
            return None
        scns = [sub_scenario(s, [i for i in keep if i not in c]) for c in cands]
        try:
            res = run_driver(exe, scns, work, tag="m")
            vs, _, _ = judge(scns, res, work, tag="m")
        except Exception:
            return None
        hit = sorted({v[0] for v in vs if v[2] == kind})
        bad = {v[0] for v in vs if v[2] == "badgen"}
        hit = [h for h in hit if h not in bad]
        return cands[hit[0]] if hit else None
    trees = sorted({st["t"] for st in s.steps if "t" in st})
    if len(trees) > 1:
        for t in trees:
            if time.time() - t0 > budget:
                break
            c = try_all([{i for i in keep if s.steps[i].get("t") == u} for u in trees if any(s.steps[i].get("t") == u for i in keep)])
            if c is None:
                break
            keep = [i for i in keep if i not in c]
    size = max(1, len(keep) // 2)
    while time.time() - t0 < budget:
        c = try_all(list(groups(size)))
        if c is not None:
            keep = [i for i in keep if i not in c]
            continue
        if size == 1:
            break
        size = max(1, size // 2)
    return sub_scenario(s, keep)


def robust_judge(scns, res, work, tag):
    """judge; if the specification cannot read an observation, find out which"""
    try:
        return judge(scns, res, work, tag)
    except RuntimeError as e:
        if "OutOfMemory" in str(e) or "StackOverflow" in str(e) and len(scns) > 1:
            pass
        if len(scns) == 1:
            return [(0, len(scns[0].steps), "unreadable", str(e)[:2000])], 0, 0
        m = len(scns) // 2
        v1, g1, d1 = robust_judge(scns[:m], res[:m], work, tag)
        v2, g2, d2 = robust_judge(scns[m:], res[m:], work, tag)
        return v1 + [(i + m, a, b, c) for i, a, b, c in v2], g1 + g2, d1 + d2


def write_replay(prop, s, res, viol, note):
    d = os.path.join(VERIF, "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s_%s.json" % (prop, re.sub(r"\W", "_", s.name)))
    with open(p, "w") as f:
        json.dump({"property": prop, "scenario": s.name, "verdict": [list(v[1:]) for v in viol], "note": note,
                   "calls": texts(s.steps), "observed": [r for r in res], "script": s.lines, "steps": s.steps}, f, indent=1)
    return p


def findings(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\w+) match=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


class Stats:
    def __init__(self):
        self.states = self.trans = self.traces = self.steps = self.gen = 0
        self.calls = collections.Counter()
        self.samples = []
        self.parts = {}

    def add(self, scns, gen, dist):
        self.traces += len(scns)
        self.states += dist
        self.trans += max(0, gen - len(scns))
        for s in scns:
            self.steps += len(s.steps)
            self.calls.update(st["a"] for st in s.steps)


def sample(s, res):
    return {"scenario": s.name, "calls": [json.dumps(t)[:300] for t in texts(s.steps)[:14]],
            "observed": [json.dumps(r)[:160] for r in res[:14]]}


def decide(prop, scns, exe, work, st, label):
    """runs and judges scenarios; list of violating (scenario, result, violations)"""
    kinds = profiles.PROFILES[prop][0] | ALWAYS | {"unreadable"}
    res = run_driver(exe, scns, work, skip=True)
    later = [s for s, r in zip(scns, res) if r is None]
    scns, res = [s for s, r in zip(scns, res) if r], [r for r in res if r]
    if any(r[-1]["code"] == 89 for r in res):
        raise RuntimeError("a scenario needs an interface the driver was built without")
    vs, gen, dist = robust_judge(scns, res, work, "t")
    st.add(scns, gen, dist)
    if len(st.samples) < 3 and scns:
        st.samples.append(sample(scns[0], res[0]))
    st.parts[label] = st.parts.get(label, 0) + len(scns)
    bad = [v for v in vs if v[2] == "badgen"]
    if bad:
        raise RuntimeError("invalid scenario generated: %s %s" % (scns[bad[0][0]].name, bad[0]))
    out = []
    slow = []
    for i in sorted({v[0] for v in vs if v[2] in kinds}):
        mine = [v for v in vs if v[0] == i and v[2] in kinds]
        if all(v[2] == "crash" and ("1014" in v[3] or "1024" in v[3]) for v in mine):
            slow.append((i, mine))
        else:
            out.append((scns[i], res[i], mine))
    if slow and not out:
        # a timeout must happen twice before it counts
        slow = slow[:8]
        r2 = run_driver(exe, [scns[i] for i, _ in slow], work)
        v2, _, _ = robust_judge([scns[i] for i, _ in slow], r2, work, "t")
        out = [(scns[i], res[i], mine) for j, (i, mine) in enumerate(slow) if any(v[0] == j and v[2] in kinds for v in v2)]
    if later and not out:
        return decide(prop, later, exe, work, st, label)
    return out


def main():
    if sys.argv[1] == "--setup":
        return setup()
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    work = os.path.join(VERIF, ".work", "%s_%d" % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    try:
        return check(prop, tier, seed, t0, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(prop, tier, seed, t0, work):
    exe, left = build_driver(work)
    st = Stats()
    limit = 420 if tier == "quick" else int(os.environ.get("VERIF_THOROUGH_S", "700"))
    bad = []
    pool = ThreadPoolExecutor(1)
    design = pool.submit(models.run, prop, tier, seed, work)
    # behaviours enumerated by the specification
    for label, scns, gen, dist in models.behaviours(prop, tier, seed, work):
        st.gen += dist
        for i in range(0, len(scns), 4 * BATCH):
            bad = decide(prop, scns[i:i + 4 * BATCH], exe, work, st, label)
            if bad or time.time() - t0 > limit:
                break
        if bad or time.time() - t0 > limit:
            break
    # random histories
    n = 0
    total = QUICK[prop] if tier == "quick" else 10 ** 9
    while not bad and n < total and time.time() - t0 < limit:
        k = min(BATCH, total - n)
        scns = [profiles.scenario(prop, seed, n + i) for i in range(k)]
        n += k
        bad = decide(prop, scns, exe, work, st, "random")
    model_info = design.result()
    st.states += model_info["states"]
    st.trans += model_info["transitions"]
    if model_info.get("error") and not bad:
        raise RuntimeError("the specification itself is broken:\n" + model_info["error"])
    known = findings(prop)
    viol = []
    for s, r, vs in bad:
        hit = [k for k in known if any(k[0].search(v[3]) for v in vs)]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, hit[0][1]))
        else:
            viol.append((s, r, vs))
    rc = 0
    if viol:
        s, r, vs = min(viol, key=lambda x: len(x[0].steps))
        kind = vs[0][2]
        path = write_replay(prop, s, r, vs, "as found")
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        print("  %s at call %d: %s" % (kind, vs[0][1] + 1, vs[0][3][:300]))
        if vs[0][1] < len(s.steps):
            print("  " + json.dumps(texts([s.steps[vs[0][1]]])[0])[:400], flush=True)
        rc = 1
        if os.environ.get("VERIF_SHRINK", "1") == "1" and kind != "unreadable":
            m = shrink(exe, s, kind, work)
            if len(m.steps) < len(s.steps):
                r2 = run_driver(exe, [m], work)
                v2, _, _ = robust_judge([m], r2, work, "t")
                if any(v[2] == kind for v in v2):
                    write_replay(prop, m, r2[0], v2, "reduced from %d calls" % len(s.steps))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": st.states, "transitions": st.trans, "traces_validated_against_impl": st.traces,
                       "calls_judged": st.steps, "generator_states": st.gen, "calls_by_kind": dict(st.calls), "scenarios_by_source": st.parts,
                       "design_model": {k: v for k, v in model_info.items() if k != "error"},
                       "observations_left_out": left, "samples": st.samples},
          "assumptions": models.ASSUMPTIONS, "wall_s": round(time.time() - t0, 1),
          "violations": len(viol),
          "violation_details": [{"scenario": s.name, "kind": v[2], "call": v[1] + 1, "detail": v[3][:300]} for s, r, vs in viol for v in vs[:2]][:10]}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d scenarios, %d calls, %d states, %.0f s, %s" %
          (prop, tier, st.traces, st.steps, st.states, time.time() - t0, "violated" if rc else "held"))
    return rc


def setup():
    for m in ["BETrace", "BEGen", "BETree", "BELearnMC"]:
        r = subprocess.run(["java", "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar",
                            "tla2sany.SANY", m + ".tla"], cwd=os.path.join(VERIF, "spec"), capture_output=True, text=True)
        if r.returncode != 0:
            print(r.stdout[-2000:])
            return 1
    print("setup ok")
    return 0


def replay(path):
    d = json.load(open(path))
    s = Scn(d["scenario"])
    s.lines, s.steps = d["script"], d["steps"]
    work = os.path.join(VERIF, ".work", "replay_%d" % os.getpid())
    os.makedirs(work, exist_ok=True)
    try:
        exe, _ = build_driver(work)
        r = run_driver(exe, [s], work)
        vs, _, _ = robust_judge([s], r, work, "t")
        for st, o in zip(texts(s.steps), r[0]):
            print(json.dumps(st)[:300], "->", json.dumps(o)[:200])
        for v in vs:
            print("%s at call %d: %s" % (v[2], v[1] + 1, v[3]))
        print("violation" if vs else "no violation")
        return 1 if vs else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
