"""Scenario construction, driver build and trace assembly for the be-tree conformance checks.

A scenario is a list of API calls. For each call we keep two renderings: the line the C
driver executes and the record the TLA+ trace specification (spec/BETrace.tla) judges.
Nothing in here knows what the right answer is; that is the specification's job.
"""
import json
import os
import re
import subprocess
import sys
import glob
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("BE_REPO", "/repo")
UNB = 18446744073709551615          # SIZE_MAX: no limit on distinct values
I64MIN, I64MAX = -(1 << 63), (1 << 63) - 1
FLOW, FHIGH = [-2000000000, 0, 0, 0, 0], [2000000000, 0, 0, 0, 0]      # open ends, see BEDecl.tla


def hx(s):
    if isinstance(s, str):
        s = s.encode("latin-1")
    return "x" + s.hex()


def by(s):
    """byte list for the specification"""
    if isinstance(s, str):
        s = s.encode("latin-1")
    return list(s)


def limbs(x):
    """number -> 5 decimal limbs base 10^6, floor normal form (see BENum.tla)"""
    n = Fraction(x) * 1000000
    if n.denominator != 1:
        raise ValueError("more than 6 decimals: %r" % (x,))
    n = int(n)
    out = []
    for _ in range(4):
        n, r = divmod(n, 1000000)
        out.append(r)
    return [n] + out[::-1]


def fnum(x):
    """exact decimal text of a fraction with at most 6 decimals"""
    n = Fraction(x) * 1000000
    assert n.denominator == 1
    n = int(n)
    s = "-" if n < 0 else ""
    n = abs(n)
    return "%s%d.%06d" % (s, n // 1000000, n % 1000000)


class Scn:
    def __init__(self, name, track=False):
        self.name = name
        self.track = track
        self.lines = []
        self.steps = []

    def _add(self, line, rec):
        self.lines.append(line)
        self.steps.append(rec)

    def tree(self, t, cap=None, part=0):
        """cap: None = the default index, "own" = the same in memory of the caller's"""
        dflt = cap is None or cap == "own"
        self._add("T %d %s" % (t, "i" if cap == "own" else "d") if dflt else "T %d %d %d" % (t, cap, part),
                  {"a": "make", "t": t, "cap": 3 if dflt else cap, "part": 0 if dflt else part})

    def var(self, t, ty, name, und, lo=None, hi=None, count=None):
        line = "V %d %s %s %d" % (t, ty, hx(name), 1 if und else 0)
        rec = {"a": "var", "t": t, "ty": ty, "nm": by(name), "und": bool(und),
               "unb": True, "lo": limbs(0), "hi": limbs(0), "cap": 0}
        if ty in ("i", "il"):
            lo = I64MIN if lo is None else lo
            hi = I64MAX if hi is None else hi
            line += " %d %d" % (lo, hi)
            rec.update(lo=limbs(lo), hi=limbs(hi), unb=(lo == I64MIN or hi == I64MAX))
        elif ty == "f":
            line += " %s %s" % ("-inf" if lo is None else fnum(lo), "inf" if hi is None else fnum(hi))
            rec.update(lo=FLOW if lo is None else limbs(lo), hi=FHIGH if hi is None else limbs(hi), unb=lo is None or hi is None)
        elif ty in ("s", "sl", "ie"):
            line += " %d" % (UNB if count is None else count)
            if count is not None:
                rec.update(unb=False, cap=count)
        self._add(line, rec)

    TEXT = {"b": "boolean", "i": "integer", "f": "float", "s": "string", "ie": "integer enum", "il": "integer list",
            "sl": "string list", "seg": "segments", "fc": "frequency"}

    def vart(self, t, line):
        """declare from a line of text"""
        self._add("A %d %s" % (t, hx(line)), {"a": "vart", "t": t, "e": by(line)})

    def empty(self, t):
        self._add("Z %d" % t, {"a": "empty", "t": t})

    def doms(self, t):
        self._add("K %d" % t, {"a": "doms", "t": t})

    def ranges(self, t, tw=("none", 0)):
        self._add("R %d" % t, {"a": "ranges", "t": t, "tw": {"m": tw[0], "g": tw[1]}})

    def show(self, t, slot):
        self._add("P %d %d" % (t, slot), {"a": "show", "t": t, "slot": slot})

    def dup(self, t, slot, to, sid):
        self._add("C %d %d %d %d" % (t, slot, to, sid), {"a": "dup", "t": t, "slot": slot, "to": to, "id": str(sid)})

    def order(self, t, slots):
        self._add("Q %d %d %s" % (t, len(slots), " ".join(str(x) for x in slots)), {"a": "order", "t": t})

    @staticmethod
    def _consts(consts):
        return str(len(consts)) + "".join(" %s %d" % (hx(k), v) for k, v in consts)

    @staticmethod
    def _cjs(consts):
        return [{"nm": by(k), "x": limbs(v)} for k, v in consts]

    def ins(self, t, sid, expr, consts=()):
        self._add("I %d %d %s %s" % (t, sid, self._consts(consts), hx(expr)),
                  {"a": "ins", "t": t, "id": str(sid), "e": by(expr), "cs": self._cjs(consts)})

    def msub(self, t, slot, sid, expr, consts=()):
        self._add("M %d %d %d %s %s" % (t, slot, sid, self._consts(consts), hx(expr)),
                  {"a": "msub", "t": t, "slot": slot, "id": str(sid), "e": by(expr), "cs": self._cjs(consts)})

    def isub(self, t, slot):
        self._add("J %d %d" % (t, slot), {"a": "isub", "t": t, "slot": slot})

    def chb(self, t, expr):
        self._add("B %d %s" % (t, hx(expr)), {"a": "chb", "t": t, "e": by(expr)})

    # tw = (mode, group): relates answers of different queries, see TwinCheck in BETrace.tla
    #   "set" remember, "add" add to what is remembered, "eq" must equal it, "ex" existence must agree
    def search(self, t, ev, reuse=False, tw=("none", 0)):
        self._add("S %d %s %s" % (t, "r" if reuse else "n", hx(ev)),
                  {"a": "search", "t": t, "e": by(ev), "reuse": reuse, "tw": {"m": tw[0], "g": tw[1]}})

    def exists(self, t, ev, tw=("none", 0)):
        self._add("X %d %s" % (t, hx(ev)), {"a": "exists", "t": t, "e": by(ev), "tw": {"m": tw[0], "g": tw[1]}})

    def event(self, t, ops, fields, tw=("none", 0)):
        """fields: (slot index, name, type, value)"""
        w = ["E", str(t), ops, str(len(fields))]
        evs = []
        for ix, name, ty, v in fields:
            w += [str(ix), hx(name), ty]
            if ty == "b":
                w.append("1" if v else "0"); jv = bool(v)
            elif ty == "i":
                w.append(str(v)); jv = limbs(v)
            elif ty == "f":
                w.append(fnum(v)); jv = limbs(v)
            elif ty == "s":
                w.append(hx(v)); jv = by(v)
            elif ty == "il":
                w.append(str(len(v))); w += [str(x) for x in v]; jv = [limbs(x) for x in v]
            elif ty == "sl":
                w.append(str(len(v))); w += [hx(x) for x in v]; jv = [by(x) for x in v]
            elif ty == "seg":
                w.append(str(len(v)))
                for a, b in v:
                    w += [str(a), str(b)]
                jv = [[limbs(a), limbs(b)] for a, b in v]
            elif ty == "fc":
                w.append(str(len(v)))
                jv = []
                for (fty, fid, ns, val, ts) in v:
                    w += [hx(fty), str(fid), hx(ns), "0" if ts is None else "1", str(ts or 0), str(val)]
                    jv.append([by(fty), limbs(fid), by(ns), limbs(val), limbs(ts or 0), ts is not None])
            evs.append([by(name), ty, jv])
        self._add(" ".join(w), {"a": "event", "t": t, "ops": list(ops), "ev": evs,
                                  "tw": {"m": tw[0], "g": tw[1]}})

    def hold(self, t, slot, fields):
        """an event kept for several calls"""
        self.event(t, "s", fields)
        w = self.lines.pop().split(" ")
        st = self.steps.pop()
        self._add(" ".join(["H", str(t), str(slot)] + w[3:]), {"a": "hold", "t": t, "slot": slot, "ev": st["ev"]})

    def ask(self, t, slot, ops, tw=("none", 0)):
        self._add("O %d %d %s" % (t, slot, ops), {"a": "ask", "t": t, "slot": slot, "tw": {"m": tw[0], "g": tw[1]}})

    def drop(self, slot):
        self._add("Y %d" % slot, {"a": "drop", "slot": slot})

    def loose(self, mode, fields):
        """values built and given back, as variables (w) or the lists alone (l)"""
        self.event(0, mode, fields)
        w = self.lines.pop().split(" ")
        self.steps.pop()
        self._add(" ".join(["U", mode] + w[3:]), {"a": "loose"})

    def find(self, t, sid):
        self._add("G %d %d" % (t, sid), {"a": "find", "t": t, "id": str(sid)})

    def defs(self, t, n):
        self._add("D %d %d" % (t, n), {"a": "defs", "t": t, "n": n})

    def walk(self, t, tw=("none", 0)):
        self._add("W %d" % t, {"a": "walk", "t": t, "tw": {"m": tw[0], "g": tw[1]}})

    def free(self, t):
        self._add("F %d" % t, {"a": "free", "t": t})

    def ledger(self):
        self._add("L", {"a": "ledger"})

    def text(self):
        return "N %s\n%s\n" % (self.name, "\n".join(self.lines))


# what the driver leaves out when the library's inner interfaces are not the ones it knows
REDUCED = [[], ["-DNO_FIND"], ["-DNO_AST"], ["-DNO_FIND", "-DNO_AST"], ["-DNO_WALK"], ["-DNO_WALK", "-DNO_AST"], ["-DNO_HELPER"], ["-DNO_WALK", "-DNO_AST", "-DNO_HELPER"]]


def build_driver(outdir):
    """compiles the driver with the library sources of the current working tree;
    returns the executable and the observations left out"""
    os.makedirs(outdir, exist_ok=True)
    srcs = sorted(glob.glob(REPO + "/src/*.c"))
    flags = ["-std=gnu11", "-O1", "-g", "-w", "-I" + REPO + "/src", "-fsanitize=address", "-fno-omit-frame-pointer",
             "-ftrivial-auto-var-init=pattern"]

    def one(s, extra=()):
        o = os.path.join(outdir, os.path.basename(s) + ".o")
        r = subprocess.run(["gcc"] + flags + list(extra) + ["-c", s, "-o", o], capture_output=True, text=True)
        return (o, r.returncode, r.stderr)
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, srcs))
    bad = [r[2][:2000] for r in res if r[1] != 0]
    if bad:
        raise RuntimeError("build failed:\n" + "\n".join(bad))
    exe = os.path.join(outdir, "driver")
    err = ""
    for left in REDUCED:
        d = one(VERIF + "/harness/driver.c", left)
        if d[1] == 0:
            r = subprocess.run(["gcc", "-fsanitize=address"] + [x[0] for x in res] + [d[0], "-lm", "-o", exe], capture_output=True, text=True)
            if r.returncode == 0:
                return exe, [x[5:] for x in left]
            err = r.stderr
        else:
            err = d[2]
    raise RuntimeError("the driver cannot be built:\n" + err[:2000])


def run_driver(exe, scns, workdir, jobs=8, tag="d", skip=False):
    """runs the scenarios; returns for each a list of result objects, one per executed
    step, followed by a crash marker if the process died.  The driver leaves scenarios out
    after two endless ones: they are run again, or (skip) their result is None"""
    out = _run_driver(exe, scns, workdir, jobs, tag)
    while any(r[-1]["code"] == -2 for r in out if r):
        idx = [i for i, r in enumerate(out) if r[-1]["code"] == -2]
        res = [None] * len(idx) if skip else _run_driver(exe, [scns[i] for i in idx], workdir, jobs, tag)
        for i, r in zip(idx, res):
            out[i] = r
    return out


def _run_driver(exe, scns, workdir, jobs, tag):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=77:max_malloc_fill_size=100000000")
    chunks = [scns[i::jobs] for i in range(jobs)]

    def one(i):
        if not chunks[i]:
            return []
        sp = os.path.join(workdir, "%s%d.scr" % (tag, i))
        op = os.path.join(workdir, "%s%d.out" % (tag, i))
        with open(sp, "w") as f:
            for s in chunks[i]:
                f.write(s.text())
        r = subprocess.run([exe, sp, op], env=env, capture_output=True, text=True)
        if r.returncode != 0:
            raise RuntimeError("driver failed with %d: %s" % (r.returncode, r.stderr[-500:]))
        res = []
        cur = []
        with open(op, errors="replace") as f:
            for line in f:
                o = json.loads(line)
                if o["k"] == -1:
                    o["done"] = len(cur)
                    cur.append(o)
                    res.append(cur)
                    cur = []
                else:
                    cur.append(o)
        os.unlink(sp)
        os.unlink(op)
        return res
    with ThreadPoolExecutor(jobs) as ex:
        parts = list(ex.map(one, range(jobs)))
    out = [None] * len(scns)
    for i, p in enumerate(parts):
        if len(p) != len(chunks[i]):
            raise RuntimeError("driver lost scenarios")
        for j, r in enumerate(p):
            out[i + j * jobs] = r
    return out


def _num(s):
    """number text of a partition bound -> limbs (huge floats are clamped)"""
    x = Fraction(s)
    lim = 10 ** 20
    if x > lim:
        x = Fraction(lim)
    if x < -lim:
        x = Fraction(-lim)
    return limbs(Fraction(int(x * 1000000), 1000000))


def _range(ty, lo, hi):
    """[unbounded count, lowest, highest, count] of a declared attribute"""
    if ty in ("i", "il", "f"):
        return [False, FLOW if lo == "-inf" else _num(lo), FHIGH if hi == "inf" else _num(hi), 0]
    if ty in ("s", "sl", "ie"):
        return [hi == "inf", limbs(0), limbs(0), 0 if hi == "inf" else int(hi)]
    return [False, limbs(0), limbs(0), 0]


def _learned(ty, lo, hi):
    """[lowest, highest, numbered, largest number] of an attribute"""
    if ty in ("s", "sl", "ie"):
        return [limbs(0), limbs(0), hi != "inf", 0 if hi == "inf" else min(int(hi), 2 ** 31 - 1)]
    return _range(ty, lo, hi)[1:3] + [False, 0]


def _cnode(c):
    return {"m": c["m"], "s": c["s"], "p": [{"v": p["v"] + 1, "d": _cdir(p["d"])} for p in c["p"]]}


def _cdir(d):
    return {"v": d["v"] + 1, "b": [_num(d["b"][0]), _num(d["b"][1])], "n": _cnode(d["n"]),
            "l": [_cdir(x) for x in d["l"]], "r": [_cdir(x) for x in d["r"]]}


def result_record(step, o):
    """result object of the driver -> what the specification reads"""
    a = step["a"]
    o = {k: v for k, v in o.items() if k != "k"}
    if a == "defs":
        o["defs"] = [[by(bytes.fromhex(n)), t] for n, t in o["defs"]]
    elif a == "doms" and o["has"]:
        o["doms"] = [[by(bytes.fromhex(n)), t, und] + _range(t, lo, hi) for n, t, und, lo, hi in o["doms"]]
    elif a == "ranges" and o["has"]:
        o["rng"] = [_learned(*x) for x in o["rng"]]
    elif a == "show" and o["has"]:
        o["text"] = by(bytes.fromhex(o["text"]))
        o["copy"] = by(bytes.fromhex(o["copy"]))
    elif a == "walk" and o["has"]:
        o["root"] = _cnode(o["root"])
        o["sid"] = [{"v": s["v"] + 1,
                     "m": [[by(bytes.fromhex(x)) if s["s"] else limbs(int(x)), limbs(int(i))] for x, i in s["m"]]}
                    for s in o["sid"]]
    return o


def trace_line(scn, res):
    """one line of the trace file judged by BETrace.tla"""
    end = res[-1]
    steps = []
    for st, o in zip(scn.steps, res[:-1]):
        steps.append(dict(st, r=result_record(st, o)))
    return json.dumps({"name": scn.name, "steps": steps, "code": end["code"]}, separators=(",", ":"))


JAVA = ["java", "-XX:+UseParallelGC"]
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


def run_tlc(module, cfg, workdir, workers=8, env=None, extra=(), heap="8g", timeout=800, tag=""):
    """runs TLC on spec/<module>.tla; returns (exit code, output)"""
    md = os.path.join(workdir, "meta_" + module + "_" + str(os.getpid()) + "_" + cfg.replace(".", "_") + tag)
    cmd = JAVA + ["-Xmx" + heap, "-Xss256m", "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers),
                  "-metadir", md, "-config", os.path.join(VERIF, "spec", cfg)] + list(extra) + \
        [os.path.join(VERIF, "spec", module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    r = subprocess.run(cmd, cwd=os.path.join(VERIF, "spec"), env=e, capture_output=True, text=True, timeout=timeout)
    subprocess.run(["rm", "-rf", md])
    return r.returncode, r.stdout + r.stderr


def judge(scns, results, workdir, tag="t", workers=8):
    """TLC verdict on recorded scenarios: (list of (scenario index, step, kind, detail), generated, distinct)"""
    path = os.path.join(workdir, tag + ".ndjson")
    with open(path, "w") as f:
        for s, r in zip(scns, results):
            f.write(trace_line(s, r) + "\n")
    rc, out = run_tlc("BETrace", "BETrace.cfg", workdir, workers=workers, env={"BE_TRACE": path})
    viols = []
    gen = dist = 0
    for line in out.splitlines():
        if line.startswith('"VIOL|'):
            p = line.strip().strip('"').split("|", 4)
            viols.append((int(p[1]) - 1, int(p[2]) - 1, p[3], p[4]))
        m = re.match(r"(\d+) states generated, (\d+) distinct states", line)
        if m:
            gen, dist = int(m.group(1)), int(m.group(2))
    if rc != 0:
        raise RuntimeError("TLC failed (%d):\n%s" % (rc, "\n".join(l for l in out.splitlines() if l[:7] not in ("Parsing", "Semanti", "Linting") and "VIOL|" not in l)[:3000]))
    os.unlink(path)
    return sorted(set(viols)), gen, dist
