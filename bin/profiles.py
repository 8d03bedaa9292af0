"""Workload families per property. Each family maps a random generator to one scenario."""
import random
import re
from fractions import Fraction
from belib import Scn
from gen import (LONG, World, Attr, ExprGen, EventGen, Style, ev_text, ev_fields, words, CONSTS, BIG, KINDS, SEG, CAPS, NOW, LAT,
                 LON, CONST, TRICKY)

CAPSET = [1, 1, 2, 2, 3, 3, 3, 5, 10, 255]
PARTS = [0, 0, 0, 0, 1, 2, 5]


def consts_for(e, rng=None):
    return CONSTS if "within_freq" in e else ()


def index_params(rng):
    return (rng.choice([None, None, "own"]), 0) if rng.random() < 0.2 else (rng.choice(CAPSET), rng.choice(PARTS))


def put(s, t, j, e):
    s.ins(t, j, e, consts_for(e))


def big_world(rng, lo=60, hi=200, und=None):
    """more attributes than a bitmap word has bits"""
    n = rng.randint(lo, hi)
    w = World(rng, n=n, types=["b", "b", "i", "s", "f"], special=0, wide=0.1, und=und, tricky=0)
    return w


def hot(rng, w, k):
    """a few attributes that the expressions use, biased to word boundaries"""
    n = len(w.attrs)
    c = {i for i in (0, 31, 32, 62, 63, 64, 65, 126, 127, 128, 129, n - 1) if i < n}
    if n > 255:
        c = {i for i in (0, 1, 63, 254, 255, 256, 257, 258, 511, 512, n - 1) if i < n}
    c = rng.sample(sorted(c), min(len(c), k))
    c += rng.sample(range(n), min(n, max(0, k - len(c))))
    return {w.attrs[i].name for i in c}


# --------------------------------------------------------------------------- general histories

def mixed(rng, ops="sx", ne=None, nev=8, reuse=False, walk=True, dupids=0.1, depth=None, world=None, ev_mode="both",
          growing=False, **kw):
    w = world or World(rng)
    s = Scn("mixed")
    w.declare(s, 0, *index_params(rng))
    g = ExprGen(rng, w, depth=rng.choice([0, 1, 2, 3]) if depth is None else depth, **kw)
    ne = ne or rng.choice([1, 3, 8, 20, 40])
    dup = rng.random() < dupids
    e = EventGen(rng, w)
    seen = 0
    for j in range(ne):
        put(s, 0, rng.randint(1, 5) if dup else j + 1, g.text())
        if growing and rng.random() < 0.25:
            if walk:
                s.walk(0)
            queries(s, rng, w, e, 1, reuse, ops, ev_mode)
    if walk:
        s.walk(0)
    queries(s, rng, w, e, nev, reuse, ops, ev_mode)
    s.free(0)
    s.ledger()
    return s


def queries(s, rng, w, e, n, reuse, ops, ev_mode="both", p=None):
    for _ in range(n):
        v = e.values(p, required=rng.random() < 0.97)
        if ev_mode == "text" or (ev_mode == "both" and rng.random() < 0.7):
            if "s" in ops:
                s.search(0, ev_text(rng, w, v), reuse=reuse and rng.random() < 0.7)
            if "x" in ops:
                s.exists(0, ev_text(rng, w, v))
        else:
            s.event(0, rng.choice(["s", "sx", "ss", "xs"]) if "x" in ops else "s", ev_fields(rng, w, v))


def deep(rng, **kw):
    """many narrow conditions on few attributes: repeated splitting"""
    ty = rng.choice([["i"], ["i", "f"], ["i", "b", "s"], ["il"], ["sl", "s"], ["f"], ["ie", "s"], ["i", "il", "sl"]])
    w = World(rng, n=rng.randint(1, 3), types=ty, special=0, wide=0.05, tricky=0, und=rng.choice([0.5, 1.0]), capped=0.9)
    s = Scn("deep")
    w.declare(s, 0, rng.choice([1, 1, 2, 3]), rng.choice([0, 0, 0, 1]))
    g = ExprGen(rng, w, depth=rng.choice([0, 0, 1, 1, 2]), nulls=0.05, dup=0.1, **{k: v for k, v in kw.items() if k != "nev"})
    n = rng.choice([10, 25, 50])
    for j in range(n):
        put(s, 0, j + 1, g.text())
    s.walk(0)
    queries(s, rng, w, EventGen(rng, w), kw.get("nev", 10), False, "s", p=rng.choice([0.7, 1.0]))
    s.free(0)
    s.ledger()
    return s


def wide(rng, ops="s", nev=6, reuse=False, n=None):
    """many attributes"""
    w = big_world(rng, *((n, n) if n else ()))
    s = Scn("wide")
    w.declare(s, 0, *index_params(rng))
    g = ExprGen(rng, w, depth=rng.choice([1, 2, 3]), only=hot(rng, w, rng.randint(2, 8)), nots=0.3)
    for j in range(rng.choice([3, 10, 25])):
        put(s, 0, j + 1, g.text())
    s.walk(0)
    e = EventGen(rng, w)
    for _ in range(nev):
        v = e.values(rng.choice([0.0, 0.05, 0.5, 0.95]))
        s.search(0, ev_text(rng, w, v, nulls=0.01), reuse=reuse)
        if "x" in ops:
            s.exists(0, ev_text(rng, w, v, nulls=0.01))
    s.free(0)
    s.ledger()
    return s


def crowd(rng, reuse=False):
    """more shared conditions than a bitmap word has bits"""
    w = World(rng, n=3, types=["i", "b", "s", "f"], special=0, wide=0, tricky=0, und=0.8)
    for a in w.attrs:
        if a.ty == "i":
            a.lo, a.hi, a.pool = 0, 300, list(range(0, 300, 3))
    w.attrs.append(Attr("many", "i", True, 0, 400, None, list(range(0, 400, 2))))
    s = Scn("crowd")
    w.declare(s, 0, rng.choice([3, 50, 255]), 0)
    g = ExprGen(rng, w, depth=1, dup=0.0, nulls=0.02)
    leaves = [g.leaf() for _ in range(rng.choice([40, 90, 150]))]
    j = 0
    for _ in range(2):
        rng.shuffle(leaves)
        for x in leaves:
            j += 1
            if rng.random() < 0.5:
                put(s, 0, j, x)
            else:
                put(s, 0, j, "%s %s %s" % (x, rng.choice(["and", "or"]), rng.choice(leaves)))
    s.walk(0)
    e = EventGen(rng, w)
    for _ in range(4):
        v = e.values(0.9)
        s.search(0, ev_text(rng, w, v), reuse=reuse)
    s.free(0)
    s.ledger()
    return s


def many_parts(rng, ops="s"):
    """more partitions under one node than a word has bits"""
    n = rng.randint(66, 120)
    w = World(rng, n=n, types=rng.choice([["b"], ["b", "i"], ["b", "s", "i"]]), special=0, wide=0, und=rng.choice([0.7, 1.0]), tricky=0, capped=1)
    s = Scn("manyparts")
    w.declare(s, 0, 1, 0)
    g = ExprGen(rng, w, depth=0, nulls=0, nots=0, lits=0)
    order = list(w.attrs)
    rng.shuffle(order)
    j = 0
    for a in order + rng.sample(order, 8):
        h = ExprGen(rng, w, depth=0, nulls=0, nots=0, lits=0, only={a.name})
        j += 1
        put(s, 0, j, h.text())
    s.walk(0)
    e = EventGen(rng, w)
    for _ in range(5):
        v = e.values(rng.choice([0.3, 0.9]))
        if "s" in ops:
            s.search(0, ev_text(rng, w, v, nulls=0.01))
        if "x" in ops:
            s.exists(0, ev_text(rng, w, v, nulls=0.01))
    s.free(0)
    s.ledger()
    return s


def bulk(rng, n=None):
    """many candidates in one search"""
    n = n or rng.choice([40, 140, 300, 1100])
    s = Scn("bulk")
    w = World(rng, n=2, types=["b", "i"], special=0, wide=0, und=1.0, tricky=0)
    w.declare(s, 0, 255, 0)
    g = ExprGen(rng, w, depth=0, nulls=0.1)
    es = [g.text() for _ in range(6)]
    for j in range(n):
        put(s, 0, j + 1, rng.choice(es))
    e = EventGen(rng, w)
    for _ in range(3):
        s.search(0, ev_text(rng, w, e.values(0.9)))
    s.free(0)
    s.ledger()
    return s


def kept(rng):
    """events kept while the index grows, asked again and again, and of another index"""
    w = World(rng, n=rng.choice([1, 2, 4, 7]), types=rng.choice([None, ["sl"], ["sl", "s"], ["sl", "il", "ie", "f"]]), und=rng.choice([0.5, 1.0]),
              special=rng.choice([0.1, 0.6]), wide=0.15, capped=0.2)
    s = Scn("kept")
    cap, part = index_params(rng)
    two = rng.random() < 0.4
    w.declare(s, 0, cap, part)
    if two:
        w.declare(s, 1, *index_params(rng))
    e = EventGen(rng, w)
    vs = [e.values(rng.choice([0.6, 1.0]), required=rng.random() < 0.9) for _ in range(rng.randint(1, 4))]
    for j, v in enumerate(vs):
        s.hold(0, j, ev_fields(rng, w, v))
    g = ExprGen(rng, w, depth=rng.choice([0, 0, 1, 2]), nulls=0.05)
    n = rng.choice([2, 5, 10, 20])
    q = 0
    for j in range(n):
        x = g.text()
        for t in ([0, 1] if two else [0]):
            if t == 0 or rng.random() < 0.7:
                put(s, t, j + 1, x)
        for k, v in enumerate(vs):
            if rng.random() < 0.4:
                q += 1
                t = rng.choice([0, 1]) if two else 0
                s.search(t, ev_text(rng, w, v), tw=("set", q))
                s.ask(t, k, rng.choice(["s", "x", "sx", "xs"]), tw=("eq", q))
        if rng.random() < 0.05:
            s.empty(0)
    for k, v in enumerate(vs):
        for t in ([1, 0, 1] if two else [0]):
            q += 1
            s.search(t, ev_text(rng, w, v), tw=("set", q))
            s.ask(t, k, rng.choice(["s", "xsx"]), tw=("eq", q))
    # an event outlives the index it was made for
    if two and rng.random() < 0.5:
        s.free(0)
        s.ask(1, 0, "sx", tw=("eq", q) if len(vs) == 1 else ("none", 0))
        s.free(1)
    else:
        s.free(0)
        if two:
            s.free(1)
    for k in range(len(vs)):
        s.drop(k)
    s.ledger()
    return s


def late(rng):
    """an existence query whose only match is one of many candidates"""
    n = rng.choice([30, 70, 140, 200])
    s = Scn("late")
    w = World(rng, n=1, types=["b"], special=0, und=1.0, tricky=0)
    w.attrs.append(Attr("k", "i", True, 0, rng.choice([n, 2000]), None, list(range(n))))
    w.declare(s, 0, rng.choice([20, 255, 255]), 0)
    order = list(range(n))
    rng.shuffle(order)
    for j in order:
        put(s, 0, j + 1, "k = %d" % j)
    for q, v in enumerate(order[-3:] + rng.sample(order, 3)):
        txt = '{"k": %d}' % v
        s.search(0, txt, tw=("set", q + 1))
        s.exists(0, txt, tw=("ex", q + 1))
    s.exists(0, '{"k": %d}' % n)
    s.exists(0, '{}')
    s.free(0)
    return s


# --------------------------------------------------------------------------- twins

def flat(attrs):
    """same attributes without ranges"""
    out = []
    for a in attrs:
        b = a.clone()
        if b.ty in ("i", "f", "il"):
            b.lo = b.hi = None
        if b.ty in ("s", "sl", "ie"):
            b.count = None
        out.append(b)
    return out


def vary(rng, attrs):
    """other ranges and counts that admit the same expressions"""
    out = []
    for a in attrs:
        b = a.clone()
        r = rng.random()
        if b.ty in ("i", "il") and b.lo is not None and r < 0.7:
            b.lo, b.hi = max(-BIG, b.lo - rng.choice([0, 1, 3, 50, 2000])), min(BIG, b.hi + rng.choice([0, 1, 3, 50, 2000]))
        elif b.ty == "f" and b.lo is not None and r < 0.7:
            b.lo, b.hi = b.lo - rng.choice([0, Fraction(1, 2), 7, 2000]), b.hi + rng.choice([0, Fraction(1, 2), 7, 2000])
        elif b.ty in ("s", "sl", "ie") and r < 0.7:
            b.count = rng.choice([None, len(b.pool), len(b.pool) + 3, 999, 1001])
        elif b.ty in ("i", "il", "f") and r < 0.8:
            b.lo = b.hi = None
        out.append(b)
    return out


def twin(rng, types=None, nmax=40, constructed=True):
    w = World(rng, n=rng.randint(1, 5), types=types, special=0.15, wide=0.1, und=rng.choice([0.6, 1.0]))
    for a in w.attrs:
        if a.ty in ("s", "sl", "ie") and a.count is not None:
            a.count = max(a.count, len(a.pool))
    g = ExprGen(rng, w, depth=rng.choice([0, 1, 1, 2]))
    es = [g.text() for _ in range(rng.choice([3, 10, 20, nmax]))]
    s = Scn("twin")
    trees = []
    for t in range(rng.choice([2, 3, 3])):
        if t == 0:
            at = flat(w.attrs)
            s.tree(0, 255, 0)
        else:
            at = w.attrs if t == 1 else vary(rng, w.attrs)
            at = list(at)
            if rng.random() < 0.3:
                rng.shuffle(at)
            s.tree(t, rng.choice([1, 1, 2, 3, 3, 5, 20]), rng.choice(PARTS))
        for a in at:
            s.var(t, a.ty, a.name, a.und, a.lo, a.hi, a.count)
        order = list(range(len(es)))
        if t > 0:
            rng.shuffle(order)
        for j in order:
            put(s, t, j + 1, es[j])
        trees.append(at)
    e = EventGen(rng, w)
    for q in range(8):
        v = e.values()
        for t, at in enumerate(trees):
            tw = ("set" if t == 0 else "eq", q + 1)
            if rng.random() < 0.7 or not constructed:
                s.search(t, ev_text(rng, w, v), tw=tw)
            else:
                s.event(t, "s", ev_fields(rng, w, v, attrs=at), tw=tw)
    for t in range(len(trees)):
        s.free(t)
    return s


def twin_deep(rng):
    return twin(rng, types=rng.choice([["i"], ["f"], ["il"], ["s", "ie"], ["sl"], ["i", "b"]]), nmax=60)


# --------------------------------------------------------------------------- single conditions

def singles(rng, types=None, depth=0, nulls=0.03, special=None, events=10, ntrees=12, p=1.0, nots=0.2, **wkw):
    """one index per expression"""
    s = Scn("singles")
    w = World(rng, n=rng.randint(1, 2) if special is None else rng.randint(0, 1), types=types, special=0,
              und=rng.choice([0.5, 1.0]), tricky=0.1, **wkw)
    if special:
        w.add_special(special, rng.choice([0.5, 1.0]))
    only = None
    if special:
        only = {a.name for a in w.attrs if a.ty in ("seg", "fc") or a.name in (LAT, LON)}
    g = ExprGen(rng, w, depth=depth, nulls=nulls, dup=0.05, nots=nots, only=only)
    for t in range(ntrees):
        w.declare(s, t)
        put(s, t, t + 1, g.text())
    e = EventGen(rng, w)
    for _ in range(events):
        v = e.values(p)
        txt = ev_text(rng, w, v)
        cons = rng.random() < 0.35
        f = ev_fields(rng, w, v)
        for t in range(ntrees):
            if cons:
                s.event(t, "s", f)
            else:
                s.search(t, txt)
    for t in range(ntrees):
        s.free(t)
    return s


def lists(rng, ntrees=10, events=9, LONG=LONG, types=None):
    """long lists and sets, dense, sparse and clustered, overlapping a little or a lot"""
    s = Scn("lists")
    w = World(rng, n=0, special=0)
    w.big = rng.choice([1, 1, 0.5])
    for j, ty in enumerate(types or rng.choice([["il"], ["il", "i"], ["sl"], ["sl", "s"], ["il", "sl", "i", "s"]])):
        w.attrs.append(w.attr("v%d" % j, ty, rng.random() < 0.6, capped=0))
        if max(LONG) > 200:
            a = w.attrs[-1]
            k = max(LONG) + rng.choice([1, 10, 60])
            at = rng.choice([0, -200, 1000])
            a.lo = a.hi = None
            a.pool = [at + 3 * x for x in range(k)] if ty in ("i", "il") else words(rng, k, "numbered")
    g = ExprGen(rng, w, depth=rng.choice([0, 0, 0, 1]), nulls=0.03, nots=0.2, dup=0)
    st = g.st
    consts = []

    def text(a):
        vs = g.ilist(a, rng.choice(LONG + [2, 3]) if rng.random() < 0.8 else None)
        if len(a.pool) > 20 and rng.random() < 0.3:
            # scattered over the whole range
            vs = rng.sample(a.pool, min(len(a.pool), len(vs)))
        consts.append((a.name, vs))
        body = "(" + ", ".join(st.string(v) if isinstance(v, str) else st.int(v) for v in vs) + ")"
        op = rng.choice(["one of", "none of", "all of", "all of"]) if a.ty in ("il", "sl") else rng.choice(["in", "not in"])
        return "%s %s %s" % (a.name, op, body)
    for t in range(ntrees):
        w.declare(s, t)
        x = text(rng.choice(w.attrs)) if rng.random() < 0.9 else g.text()
        if rng.random() < 0.15:
            x = "not (%s)" % x
        put(s, t, t + 1, x)
    e = EventGen(rng, w)
    for _ in range(events):
        v = e.values(1.0)
        for a in w.attrs:
            mine = [c for nm, c in consts if nm == a.name]
            if a.ty in ("il", "sl") and mine and rng.random() < 0.7:
                c = list(rng.choice(mine))
                r = rng.random()
                spare = [x for x in a.pool if x not in c] or c
                if r < 0.25:        # everything asked for, and more
                    c += [rng.choice(spare) for _ in range(rng.choice([0, 1, 5, 20, 40]))]
                elif r < 0.5:       # all but one, and more
                    c.remove(rng.choice(c))
                    c += [rng.choice(spare) for _ in range(rng.choice([0, 1, 5, 20, 40]))]
                elif r < 0.75:      # a single common element
                    k = rng.choice(LONG + [0, 1, 2])
                    c = [rng.choice(c)] + [rng.choice(spare) for _ in range(k)]
                else:               # none
                    c = [x for x in a.pool if x not in c]
                    c = rng.sample(c, min(len(c), rng.choice(LONG)))
                rng.shuffle(c)
                v[a.name] = c
        txt = ev_text(rng, w, v)
        f = ev_fields(rng, w, v) if rng.random() < 0.35 else None
        for t in range(ntrees):
            if f:
                s.event(t, "s", f)
            else:
                s.search(t, txt)
    for t in range(ntrees):
        s.free(t)
    return s


def undef(rng):
    """nested connectives on events that leave much undefined"""
    r = rng.random()
    if r < 0.35:
        return singles(rng, types=None, depth=rng.choice([1, 2, 3, 4]), nulls=0.25, p=rng.choice([0.0, 0.3, 0.6]), nots=0.35,
                       ntrees=15)
    if r < 0.5:
        return singles(rng, depth=rng.choice([1, 2]), nulls=0.1, p=0.6, nots=0.35, special=rng.choice([["seg"], ["fc"], ["geo"], ["seg", "geo"], ["seg2", "fc"]]))
    if r < 0.75:
        w = big_world(rng, und=rng.choice([0.8, 1.0]))
        return mixed(rng, ops="s", ne=rng.choice([3, 10]), walk=False, world=w, only=hot(rng, w, rng.randint(2, 6)), nots=0.35,
                     nulls=0.2, depth=rng.choice([1, 2, 3]))
    return mixed(rng, ops="s", nots=0.35, nulls=0.25, walk=False, depth=rng.choice([2, 3, 4]))


def nearmiss(rng, g):
    """a leaf and one that differs from it in one place"""
    x = g.leaf()
    y = x
    for _ in range(5):
        k = rng.random()
        digits = [i for i, c in enumerate(x) if c.isdigit() and (i == 0 or not (x[i - 1].isalnum() or x[i - 1] in "_-."))]
        m = re.search(r"(?:of|in)\s*\(([^()]*,[^()]*)\)", x)
        if k < 0.2 and m:
            # a list that differs in its length or in one element
            es = [e for e in re.findall(r"'[^']*'|\"[^\"]*\"|-?\s*[0-9]+", m.group(1))]
            if not es:
                continue
            i = rng.randrange(len(es))
            r = rng.random()
            if r < 0.5 and len(es) > 1:
                es = es[:i] + es[i + 1:] if rng.random() < 0.5 else es[:-1]
            elif r < 0.8 and es[i][0] in "'\"" and len(es[i]) > 2:
                j = rng.randrange(1, len(es[i]) - 1)
                es[i] = es[i][:j] + rng.choice("abz") + es[i][j + 1:]
            elif es[i][0] not in "'\"":
                es[i] = str(int("".join(es[i].split())) + rng.choice([1, -1, 256, 1 << 32]))
            y = x[:m.start(1)] + ", ".join(es) + x[m.end(1):]
        elif k < 0.4 and digits:
            i = rng.choice(digits)
            y = x[:i] + rng.choice("123456789") + x[i + 1:]
        elif k < 0.8:
            a, b = rng.choice([("<=", "<"), (">=", ">"), ("<", "<="), (">", ">="), (" in", " not in"), ("one of", "none of"),
                               ("all of", "one of"), ("=", "<>"), ("contains", "starts_with"), ("starts_with", "ends_with"),
                               ("segment_within", "segment_before"), ("is null", "is not null"), ("campaign", "flight"),
                               ("advertiser", "product"), ("'ns'", "'other'"), ("<", ">")])
            if a in x and not (a in ("<", ">") and ("<=" in x or ">=" in x or "<>" in x)) and not (a == "=" and ("<=" in x or ">=" in x)) \
                    and not (a == " in" and "not in" in x):
                y = x.replace(a, b, 1)
        if y != x:
            break
    return x, y


def shared(rng):
    """expressions one by one against all of them together"""
    w = World(rng, n=rng.randint(1, 4), special=0.4, wide=0.2, tricky=0.05, capped=0)
    g = ExprGen(rng, w, depth=rng.choice([0, 1, 2]), dup=0.3)
    n = rng.choice([4, 10, 20])
    pool = []
    for _ in range(max(2, n // 3)):
        pool += nearmiss(rng, g)
    es = []
    for _ in range(n):
        r = rng.random()
        if r < 0.5:
            x = rng.choice(pool)
            es.append(x if rng.random() < 0.7 else "not (%s)" % x)
        elif r < 0.8:
            op = rng.choice([" and ", " or "])
            es.append("(" + rng.choice(pool) + ")" + op + "(" + rng.choice(pool) + ")")
        else:
            es.append(g.text())
    return together(rng, w, es)


def together(rng, w, es, nev=6):
    s = Scn("shared")
    w.declare(s, 0, rng.choice([3, 3, 255, 1]), 0)
    for j, e in enumerate(es):
        cs = rng_consts(rng, e)
        s.ins(0, j + 1, e, cs)
        w.declare(s, j + 1)
        s.ins(j + 1, j + 1, e, cs)
    s.walk(0)
    ev = EventGen(rng, w)
    for q in range(nev):
        v = ev.values(rng.choice([0.5, 0.9, 1.0]))
        txt = ev_text(rng, w, v)
        for j in range(len(es)):
            s.search(j + 1, txt, tw=("add", q + 1))
        s.search(0, txt, tw=("eq", q + 1))
    for j in range(len(es) + 1):
        s.free(j)
    return s


def rng_consts(rng, e):
    """campaign side ids differ between registrations of the same text"""
    if "within_freq" not in e:
        return ()
    return [(k, rng.choice([10, 20, 30])) for k, _ in CONSTS]


def shared_many(rng):
    w = World(rng, n=1, types=["b"], special=0, tricky=0)
    w.attrs.append(Attr("many", "i", True, 0, 400, None, list(range(0, 400, 2))))
    w.attrs.append(Attr("txt", "s", True, None, None, None, ["w%d" % i for i in range(70)]))
    g = ExprGen(rng, w, depth=0, nulls=0.01, dup=0)
    n = rng.choice([80, 100])
    leaves = [g.leaf() for _ in range(n // 2 + 25)]
    es = []
    while len(es) < n:
        x = rng.choice(leaves)
        es.append("(%s) %s (%s)" % (leaves[len(es) % len(leaves)], rng.choice(["and", "or"]), x))
    return together(rng, w, es[:110], nev=3)


# --------------------------------------------------------------------------- P06 .. P11

def shuffled(rng, w, v):
    """the same values, lists in another order"""
    out = {}
    for nm, x in v.items():
        if w.by(nm).ty in ("il", "sl") and x:
            x = list(x)
            rng.shuffle(x)
        out[nm] = x
    return out


def existence(rng):
    r = rng.random()
    if r < 0.15:
        w = big_world(rng, 60, 140)
        g = ExprGen(rng, w, depth=2, only=hot(rng, w, 4))
    else:
        w = World(rng, und=rng.choice([0.4, 0.8, 1.0]), wide=0.15)
        g = ExprGen(rng, w, depth=rng.choice([0, 1, 2]))
    s = Scn("existence")
    cap, part = index_params(rng)
    w.declare(s, 0, cap, part)
    dup = rng.random() < 0.25
    for j in range(rng.choice([0, 1, 2, 5, 12, 30])):
        put(s, 0, rng.randint(1, 3) if dup else j + 1, g.text())
    s.walk(0, tw=("set", 900))
    e = EventGen(rng, w)
    qs = []
    for q in range(8):
        v = e.values(rng.choice([0.2, 0.6, 1.0]), required=rng.random() < 0.8)
        qs.append(v)
        s.search(0, ev_text(rng, w, v), tw=("set", q + 1))
        # one order of the lists for all of them: is it the same event however it is asked?
        if rng.random() < 0.6:
            s.exists(0, ev_text(rng, w, v), tw=("ex", q + 1))
        else:
            s.event(0, rng.choice(["x", "x", "sx", "xsx", "xs", "sxs"]), ev_fields(rng, w, shuffled(rng, w, v)), tw=("eq", q + 1))
    s.walk(0, tw=("eq", 900))
    for q in range(3):
        s.search(0, ev_text(rng, w, qs[q]), tw=("eq", q + 1))
        s.exists(0, ev_text(rng, w, qs[q]), tw=("ex", q + 1))
    s.free(0)
    return s


def respell(rng, w, v):
    """the same values, lists reordered and repeated"""
    out = {}
    for nm, x in v.items():
        a = w.by(nm)
        if a.ty in ("il", "sl") and x:
            x = list(x) + [rng.choice(x) for _ in range(rng.randint(0, 2))]
            rng.shuffle(x)
        out[nm] = x
    return out


def longest(rng, types=None):
    """lists longer than a byte counts"""
    return lists(rng, rng.choice([3, 4]), 4, [255, 256, 257, 258, 300], types)


def long_spellings(rng):
    """a list longer than a byte counts, in different orders and with repetitions"""
    w = World(rng, n=0, special=0)
    ty = rng.choice(["il", "sl"])
    a = w.attr("v", ty, True, capped=0)
    k = rng.choice([250, 256, 260, 300])
    a.lo = a.hi = None
    a.pool = [2 * x - 99 for x in range(k)] if ty == "il" else words(rng, k, "numbered")
    w.attrs.append(a)
    s = Scn("spellings")
    w.declare(s, 0, 3, 0)
    st = Style(rng, False)
    put_ = lambda v: st.string(v) if ty == "sl" else st.int(v)
    for j in range(4):
        vs = rng.sample(a.pool, rng.choice([1, 2, k, k - 5]))
        put(s, 0, j + 1, "v %s (%s)" % (rng.choice(["one of", "none of", "all of"]), ", ".join(put_(v) for v in vs)))
        put(s, 0, 10 + j, "v all of (%s)" % ", ".join(put_(v) for v in rng.sample(a.pool, 2)))
    for q in range(2):
        v = rng.sample(a.pool, rng.choice([len(a.pool), len(a.pool) - 3, len(a.pool) - 1]))
        for j in range(3):
            x = list(v)
            if j == 0:
                x.sort()
            else:
                rng.shuffle(x)
                x += [rng.choice(v) for _ in range(rng.choice([0, 3, 40]))]
            s.search(0, ev_text(rng, w, {"v": x}), tw=("eq" if j else "set", q + 1))
            s.event(0, "s", ev_fields(rng, w, {"v": x}), tw=("eq", q + 1))
    s.free(0)
    return s


def spellings(rng):
    w = World(rng, special=0.4, und=rng.choice([0.5, 1.0]), types=["b", "i", "f", "f", "s", "il", "sl", "il", "sl", "ie"])
    s = Scn("spellings")
    w.declare(s, 0, *index_params(rng))
    g = ExprGen(rng, w, depth=rng.choice([0, 1, 2]))
    for j in range(rng.choice([2, 6, 15])):
        put(s, 0, j + 1, g.text())
    e = EventGen(rng, w)
    order = []
    for q in range(5):
        v = e.values(rng.choice([0.5, 1.0]))
        order += [(q, v)] * 5
    rng.shuffle(order)
    started = set()
    for q, v in order:
        tw = ("eq" if q in started else "set", q + 1)
        started.add(q)
        x = respell(rng, w, v)
        r = rng.random()
        if r < 0.55:
            s.search(0, ev_text(rng, w, x, wild=rng.random() < 0.5, nulls=rng.choice([0, 0.5, 1.0])), tw=tw)
        else:
            s.event(0, rng.choice(["s", "ss", "sxs"]), ev_fields(rng, w, x), tw=tw)
    s.free(0)
    return s


GARBAGE = ["", " ", "and", "not", "(", ")", "a b", "1", "'x'", "= 1", "x = ", "x in ()", "x in (1,)", "x in (1,'a')", "x >", "x ~ 1",
           "x = 'abc", "x one of 1", "x is", "x is nul", "@", "x == 1", "true false", "true and", "not not", "contains(x)",
           "within_frequency_cap('a')", "within_frequency_cap('nokind', 'ns', 1, 2)", "segment_within(1)", "geo_within_radius(1, 2.0, 3)",
           "x in y", "1 in (1,2)", "x not in", "(x = 1", "x = 1)", "x = 1 x", "x <> 'a' 'b'", "x = 1 and and y = 2", "1.5 in x", "x in (1.5)",
           "x > 'a'", "- 1", "x = - - 1", "x = 1;", "x & y", "x | y", "!x", "x = #1"]


def mutate(rng, e):
    """text near the language"""
    r = rng.random()
    if r < 0.2:
        i = rng.randint(0, len(e))
        return e[:i] + rng.choice("()',\"<>=-&| .@!x1") + e[i:]
    if r < 0.45 and e:
        i = rng.randrange(len(e))
        return e[:i] + e[i + 1:]
    if r < 0.6 and e:
        i = rng.randrange(len(e))
        return e[:i]
    if r < 0.8:
        return e + rng.choice([" )", " and", " x", " 1", " not", ",", "'", " true", "(", " in (1)"])
    toks = e.split(" ")
    i, j = rng.randrange(len(toks)), rng.randrange(len(toks))
    toks[i], toks[j] = toks[j], toks[i]
    return " ".join(toks)


def refused(rng, w, g):
    """(text, constants) of an expression that must be refused by insertion, whatever is stored"""
    r = rng.random()
    good = g.text()
    if r < 0.2:
        return rng.choice(GARBAGE).replace("x", w.attrs[0].name).replace("y", w.attrs[-1].name), ()
    if r < 0.35:
        return good + rng.choice([" and", " )", " or or " + good, " '", " @ 1", " not"]), ()
    if r < 0.6:
        bad = rng.choice(["undeclared_x = 1", "undeclared_y", "undeclared_z in ('q1','q2')", "'q3' in undeclared_l",
                          "not undeclared_x > 2", "undeclared_s is null", "undeclared_t one of (1,2)", "contains(undeclared_u, 'a')",
                          "segment_within(undeclared_v, 1, 20)"])
        return rng.choice(["%s and (%s)", "%s or (%s)"]) % ((bad, good) if rng.random() < 0.5 else ("(" + good + ")", bad)), consts_for(good)
    caps = [a for a in w.attrs if a.ty in ("s", "sl") and a.count is not None and a.count < 20]
    if caps and r < 0.85:
        a = rng.choice(caps)
        vs = ["over%d" % i for i in range(a.count + 1)]
        if rng.random() < 0.5:
            vs = vs[:a.count] + [rng.choice(a.pool)] + vs[a.count:]
        rng.shuffle(vs)
        over = "%s %s (%s)" % (a.name, rng.choice(["in", "not in"] if a.ty == "s" else ["one of", "none of", "all of"]),
                               ",".join("'%s'" % v for v in vs))
        if a.ty == "s" and rng.random() < 0.3:
            over = rng.choice([" or ", " and "]).join("%s = '%s'" % (a.name, v) for v in vs)
        return rng.choice(["(%s) and (%s)", "(%s) or (%s)"]) % ((over, good) if rng.random() < 0.5 else (good, over)), consts_for(good)
    fc = w.by(CAPS)
    if fc is not None and w.by(NOW) is not None:
        k = rng.choice(KINDS)
        cs = [(n, x) for n, x in CONSTS if n != CONST[k]]
        rng.shuffle(cs)
        return "(%s) or within_frequency_cap('%s%s', 'fresh', 1, 0)" % (good, k, rng.choice(["", ":ip"])), cs[:rng.randint(0, 4)]
    return "undeclared_x = 1 or (%s)" % good, consts_for(good)


def rejections(rng):
    w = World(rng, special=0.5, capped=0.8, types=["b", "i", "f", "s", "s", "il", "sl", "ie"], und=1.0)
    for a in w.attrs:
        if a.ty in ("s", "sl", "ie") and a.count is not None:
            a.count = len(a.pool)           # exactly room for what the valid ones mention
    s = Scn("rejections")
    cap, part = index_params(rng)
    w.declare(s, 0, cap, part)
    w.declare(s, 1, cap, part)
    g = ExprGen(rng, w, depth=rng.choice([0, 1, 2]))
    n = rng.choice([2, 5, 12])
    e = EventGen(rng, w)
    q = 0
    for j in range(n + 1):
        for _ in range(rng.choice([0, 1, 1, 3])):
            txt, cs = refused(rng, w, g)
            r = rng.random()
            q += 1
            s.walk(0, tw=("set", 1000 + q))
            if r < 0.7 or "over" in txt:
                s.ins(0, 1000 + q, txt, cs)
            elif r < 0.85:
                s.msub(0, q % 100, 1000 + q, txt, cs)
            else:
                if "undeclared" in txt or "within_freq" not in txt and not _parses_maybe(txt):
                    s.chb(0, txt if "undeclared" in txt else rng.choice([")", "x and", "a = = 1", "undeclared_q > 1"]))
            s.walk(0, tw=("eq", 1000 + q))
        if j < n:
            x = g.text()
            cs = consts_for(x)
            s.ins(0, j + 1, x, cs)
            s.ins(1, j + 1, x, cs)
    # compare the two indexes and their structure
    s.walk(1, tw=("set", 900))
    s.walk(0, tw=("eq", 900))
    for k in range(6):
        v = e.values()
        txt = ev_text(rng, w, v)
        s.search(1, txt, tw=("set", k + 1))
        s.search(0, txt, tw=("eq", k + 1))
    s.free(0)
    s.free(1)
    return s


def _parses_maybe(t):
    return True


def malformed(rng):
    """only acceptance: valid texts and texts near them"""
    w = World(rng, special=0.5, tricky=0.4, und=1.0)
    s = Scn("malformed")
    w.declare(s, 0)
    st = Style(rng)
    g = ExprGen(rng, w, st, depth=rng.choice([0, 1, 2]), nots=0.3)
    cs = CONSTS
    good = 0
    for j in range(30):
        r = rng.random()
        x = g.text() if r < 0.95 else rng.choice(GARBAGE).replace("x", w.attrs[0].name)
        if rng.random() < 0.6:
            x = mutate(rng, x)
            if rng.random() < 0.3:
                x = mutate(rng, x)
        if "\0" in x:
            continue
        # only syntax is varied here: mutated texts might be ill-typed, so they go through building, which checks types
        if mutated_risky(x):
            s.msub(0, j, j + 1, x, cs)
            if rng.random() < 0.5:
                s.isub(0, j)
        else:
            s.msub(0, j, j + 1, x, cs)
            s.isub(0, j)
    e = EventGen(rng, w)
    for _ in range(5):
        s.search(0, ev_text(rng, w, e.values()))
    return s


def mutated_risky(x):
    return True


def beyond(ops="s", reuse=False):
    """more attributes than a byte counts"""
    return lambda r: wide(r, ops, 5, reuse, r.choice([256, 257, 258, 300, 513]))


def required(rng, n=None):
    n = n or rng.choice([1, 2, 5, 10, 30, 70, 130])
    w = World(rng, n=n, types=None if n < 40 else ["b", "i", "s"], und=rng.choice([0.0, 0.5, 0.9]), special=0.2, tricky=0.1)
    s = Scn("required")
    w.declare(s, 0, *index_params(rng))
    req = [a.name for a in w.attrs if not a.und]
    if rng.random() < 0.2:
        # required attributes in the last places
        for a in w.attrs:
            a.und = True
        w.attrs[-1].und = False
        req = [w.attrs[-1].name]
        s = Scn("required")
        w.declare(s, 0, *index_params(rng))
    g = ExprGen(rng, w, depth=1, lits=0.2)
    for j in range(rng.choice([0, 1, 4, 12])):
        put(s, 0, j + 1, g.text())
    e = EventGen(rng, w)
    for _ in range(12):
        v = e.values(rng.choice([0.0, 0.5, 1.0]))
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            if req:
                v.pop(rng.choice(req), None)
        r = rng.random()
        if r < 0.4:
            s.search(0, ev_text(rng, w, v, nulls=rng.choice([0, 0.5])), reuse=rng.random() < 0.3)
        elif r < 0.7:
            s.exists(0, ev_text(rng, w, v, nulls=rng.choice([0, 0.5])))
        else:
            s.event(0, rng.choice(["s", "x", "sx", "xs"]), ev_fields(rng, w, v))
    s.free(0)
    return s


ILL = ["{b} = 1", "{b} > 2", "{i} = 'a'", "{i}", "{i} in ('a')", "{i} = 1.5", "{i} > 1.5", "{s} > 2", "{s} = 3", "{s}", "{s} in (1,2)",
       "{f} = 'a'", "{f}", "{f} in (1,2)", "{il} one of ('a')", "{il} = 1", "'a' in {il}", "{sl} one of (1)", "1 in {sl}", "{sl} = 'a'",
       "{s} one of ('a')", "{i} one of (1)", "{il} in (1,2)", "{sl} in ('a','b')", "1 in {i}", "'a' in {s}", "{i} is empty", "{s} is empty",
       "{b} is empty", "{req} is null", "{req} is not null", "contains({i}, 'a')", "starts_with({sl}, 'a')", "ends_with({b}, 'a')",
       "segment_within({i}, 1, 2)", "segment_before({s}, 1, 2)", "{ie} = 'a'", "{ie} in (1,2)", "{ie} > 3", "{ie}", "{il}", "{sl}",
       "within_frequency_cap('nokind', 'ns', 1, 2)", "within_frequency_cap('flight', 'ns', 1, 2)", "segment_within(1, 20)",
       "segment_before({seg}, 1, 20)", "geo_within_radius(1.0, 2.0, 3.0)", "{seg} = 1", "{seg}", "{caps}", "{caps} is empty", "{seg} is empty"]


def every_form(w, st, rng):
    """each way of stating a condition on each attribute of a world, with several constants"""
    out = []
    for a in w.attrs:
        nm = lambda: st.name(a.name)
        out += ["%s is null" % nm(), "%s is not null" % nm()]
        if a.ty == "b":
            out += [nm(), "not " + nm()]
        elif a.ty in ("i", "f"):
            one = st.int if a.ty == "i" else lambda x: st.num(x)
            for c in rng.sample(a.pool, min(3, len(a.pool))):
                out += ["%s %s %s" % (nm(), op, one(c)) for op in ["<", "<=", ">", ">=", "=", "<>"]]
            if a.ty == "i":
                for k in (1, 3):
                    out += ["%s %s (%s)" % (nm(), op, ", ".join(st.int(x) for x in rng.sample(a.pool, min(k, len(a.pool))))) for op in ["in", "not in"]]
        elif a.ty in ("s", "ie"):
            one = st.string if a.ty == "s" else st.int
            for c in rng.sample(a.pool, min(4, len(a.pool))):
                out += ["%s %s %s" % (nm(), op, one(c)) for op in ["=", "<>"]]
                if a.ty == "s":
                    out += ["%s(%s, %s)" % (f, nm(), st.string(x)) for f, x in [("contains", c[1:-1]), ("starts_with", c[:2]), ("ends_with", c[-2:])] if x]
            if a.ty == "s":
                for k in (1, 3, 6):
                    out += ["%s %s (%s)" % (nm(), op, ", ".join(one(x) for x in rng.sample(a.pool, min(k, len(a.pool))))) for op in ["in", "not in"]]
        elif a.ty in ("il", "sl"):
            one = st.string if a.ty == "sl" else st.int
            out += ["%s is empty" % nm()]
            for c in rng.sample(a.pool, min(5, len(a.pool))):
                out += ["%s %s %s" % (one(c), op, nm()) for op in ["in", "not in"]]
            for k in (1, 3, 6):
                out += ["%s %s (%s)" % (nm(), op, ", ".join(one(x) for x in rng.sample(a.pool, min(k, len(a.pool))))) for op in ["one of", "none of", "all of"]]
        elif a.ty == "seg":
            for c in rng.sample(a.pool, 2):
                out += ["%s(%s%d, %d)" % (f, "" if a.name == SEG and rng.random() < 0.5 else nm() + ", ", c, x)
                        for f in ["segment_within", "segment_before"] for x in (0, 20, 100)]
        elif a.ty == "fc":
            out += ["within_frequency_cap('%s%s', '%s', %d, %d)" % (k, rng.choice(["", ":ip"]), rng.choice(["ns", "other", ""]), rng.choice([0, 1, 2]), rng.choice([0, 50, 100]))
                    for k in KINDS]
    if w.by(LAT) is not None:
        out += ["geo_within_radius(%d.0, %d.0, %d.0)" % x for x in [(10, 10, 50), (10, 10, 4000), (-40, 100, 19000)]]
    return out


def forms(rng, missing=0.5, nots=True):
    """every condition there is, bare and negated, on events that lack much"""
    w = typed_world(rng)
    for a in w.attrs:
        if a.name in ("t_s", "t_sl"):
            a.pool, a.count = words(rng, 9, rng.choice(["numbered", "odd", "clash"])), None
        elif a.name == "t_il":
            a.pool = [3 * x - 9 for x in range(9)]
            a.lo, a.hi = rng.choice([(None, None), (-9, 15), (-100, 100)])
    s = Scn("forms")
    w.declare(s, 0, *index_params(rng))
    st = Style(rng, False)
    es = every_form(w, st, rng)
    if rng.random() < 0.5:
        rng.shuffle(es)
    if len(es) > 90:
        es = rng.sample(es, 90)
    j = 0
    for x in es:
        j += 1
        r = rng.random()
        if nots and r < 0.25:
            x = "not (%s)" % x
        elif nots and r < 0.35:
            x = "(%s) %s (%s)" % (x, rng.choice(["and", "or"]), rng.choice(es))
        elif nots and r < 0.42:
            x = "not ((%s) %s (%s))" % (x, rng.choice(["and", "or"]), rng.choice(es))
        put(s, 0, j, x)
    s.walk(0)
    e = EventGen(rng, w)
    for q in range(8):
        v = e.values([0.0, 1.0, 1.0 - missing, 1.0][q % 4])
        if q % 4 == 3:
            drop = rng.sample([a.name for a in w.attrs if a.und and a.name in v], 2)
            for x in drop:
                del v[x]
        if rng.random() < 0.7:
            s.search(0, ev_text(rng, w, v, nulls=rng.choice([0, 0.5])), reuse=rng.random() < 0.3)
        else:
            s.event(0, rng.choice(["s", "sx"]), ev_fields(rng, w, v))
    s.free(0)
    return s


def typed_world(rng, und=None):
    w = World(rng, n=0, special=0)
    for nm, ty in [("b", "b"), ("i", "i"), ("f", "f"), ("s", "s"), ("il", "il"), ("sl", "sl"), ("ie", "ie")]:
        w.attrs.append(w.attr("t_" + nm, ty, True, wide=0.1, capped=0))
    w.add_special(["seg", "fc", "geo"], 1.0)
    if rng.random() < 0.5:
        r = w.attr("t_req", rng.choice(["b", "i", "s"]), False, wide=0)
        w.attrs.append(r)
    rng.shuffle(w.attrs)
    return w


def builds(rng):
    """well-typed and ill-typed building"""
    w = typed_world(rng)
    odd = rng.random() < 0.4
    if odd:
        # a name with a meaning of its own, of another type
        nm, tys = rng.choice([(NOW, "fbs"), (NOW, "fbs"), (CAPS, "sib"), (SEG, ["il", "i", "s"]), (LAT, "isb"), (LON, "isb")])
        w.attrs = [w.attr(nm, rng.choice(tys), True, wide=0, capped=0) if a.name == nm else a for a in w.attrs]
    s = Scn("builds")
    w.declare(s, 0, *index_params(rng))
    g = ExprGen(rng, w, depth=rng.choice([0, 1, 2]), only={a.name for a in w.attrs if a.name[:2] == "t_"} if odd else None)
    e = EventGen(rng, w)
    tab = {"b": "t_b", "i": "t_i", "f": "t_f", "s": "t_s", "il": "t_il", "sl": "t_sl", "ie": "t_ie", "seg": SEG, "caps": CAPS,
           "req": "t_req" if w.by("t_req") else "t_undeclared"}
    v = e.values(0.8)
    s.search(0, ev_text(rng, w, v), tw=("set", 1))
    for j in range(20):
        r = rng.random()
        if r < 0.45:
            x = g.text()
        else:
            x = rng.choice(ILL).format(**tab)
            if rng.random() < 0.6:
                x = rng.choice(["(%s) and (%s)", "(%s) or (%s)", "not ((%s) or (%s))"]) % ((x, g.text()) if rng.random() < 0.5 else (g.text(), x))
        cs = CONSTS if rng.random() < 0.9 else rng.sample(CONSTS, 3)
        s.msub(0, j, j + 1, x, cs)
        if rng.random() < 0.3:
            s.search(0, ev_text(rng, w, v), tw=("eq", 1))   # nothing inserted yet
    s.search(0, ev_text(rng, w, v), tw=("eq", 1))
    js = list(range(20))
    rng.shuffle(js)
    for j in js:
        s.isub(0, j)
    for _ in range(5):
        v = e.values()
        s.search(0, ev_text(rng, w, v))
    s.free(0)
    return s


def twophase(rng):
    """the same expressions inserted directly and in two phases"""
    r = rng.random()
    w = World(rng, n=rng.randint(1, 5), special=0.2, wide=0.2, capped=0)
    if r < 0.6:
        # attributes without declared range: ranges come from the expressions
        for a in w.attrs:
            if a.ty in ("i", "f", "il") and rng.random() < 0.8 and a.name not in (NOW, LAT, LON):
                a.lo = a.hi = None
    g = ExprGen(rng, w, depth=rng.choice([0, 1, 1, 2]))
    es = [g.text() for _ in range(rng.choice([3, 8, 20, 40]))]
    s = Scn("twophase")
    w.declare(s, 0, 255 if rng.random() < 0.5 else None)
    cap, part = index_params(rng)
    w.declare(s, 1, cap, part)
    e = EventGen(rng, w)
    for j, x in enumerate(es):
        put(s, 0, j + 1, x)
    todo = list(range(len(es)))
    rng.shuffle(todo)
    built = []
    ncheck = 0
    if rng.random() < 0.4:
        for x in rng.sample(es, rng.randint(0, len(es))):
            s.chb(1, x)
        for _ in range(rng.randint(0, 3)):
            s.chb(1, g.text())
    lazy = rng.random()
    while todo or built:
        if todo and (not built or rng.random() < lazy):
            j = todo.pop()
            if rng.random() < 0.1:
                put(s, 1, j + 1, es[j])
            else:
                s.msub(1, j, j + 1, es[j], consts_for(es[j]))
                built.append(j)
                if rng.random() < 0.15 and ncheck < 3:
                    ncheck += 1
                    # building alone changes no answer
                    v = e.values()
                    t = ev_text(rng, w, v)
                    s.search(1, t, tw=("set", 500 + ncheck))
                    if todo:
                        k = todo.pop()
                        s.msub(1, k, k + 1, es[k], consts_for(es[k]))
                        built.append(k)
                    s.search(1, t, tw=("eq", 500 + ncheck))
        else:
            k = built.pop(rng.randrange(len(built)))
            s.isub(1, k)
            if rng.random() < 0.05:
                s.chb(1, g.text())
    for q in range(8):
        v = e.values()
        t = ev_text(rng, w, v)
        s.search(0, t, tw=("set", q + 1))
        s.search(1, t, tw=("eq", q + 1))
    s.free(0)
    s.free(1)
    return s


def overbuilt(rng):
    """building takes as many strings as it meets: the same answers as without a declared number"""
    w = World(rng, n=rng.randint(1, 3), types=["s", "sl", "ie", "s", "sl", "ie", "b"], special=0.1, capped=0, und=rng.choice([0.6, 1.0]))
    for a in w.attrs:
        if a.ty in ("s", "sl", "ie"):
            a.pool = a.pool + (["w%d" % k for k in range(rng.choice([0, 3, 8]))] if a.ty != "ie" else [50 + k for k in range(rng.choice([0, 3, 8]))])
    g = ExprGen(rng, w, depth=rng.choice([0, 0, 1, 2]))
    es = [g.text() for _ in range(rng.choice([3, 8, 20]))]
    s = Scn("overbuilt")
    w.declare(s, 0, 255)
    tight = [a.clone(count=rng.choice([1, 1, 2, 3, 5])) if a.ty in ("s", "sl", "ie") else a for a in w.attrs]
    cap, part = index_params(rng)
    w.declare(s, 1, cap, part, attrs=tight)
    for j, x in enumerate(es):
        put(s, 0, j + 1, x)
    order = list(range(len(es)))
    rng.shuffle(order)
    k = rng.randint(0, len(order))
    for j in order[:k]:
        s.msub(1, j, j + 1, es[j], consts_for(es[j]))
    back = order[:k]
    rng.shuffle(back)
    for j in back:
        s.isub(1, j)
    for j in order[k:]:
        s.msub(1, j, j + 1, es[j], consts_for(es[j]))
        s.isub(1, j)
    e = EventGen(rng, w)
    for q in range(8):
        t = ev_text(rng, w, e.values(rng.choice([0.7, 1.0])))
        s.search(0, t, tw=("set", q + 1))
        s.search(1, t, tw=("eq", q + 1))
    s.free(0)
    s.free(1)
    return s


# --------------------------------------------------------------------------- P12 .. P18

def identity(rng):
    """values shared between attributes, numbering in every order, capacities at the limit"""
    s = Scn("identity")
    n = rng.randint(1, 5)
    pool = words(rng, rng.randint(2, 8), "clash" if rng.random() < 0.35 else None)
    ipool = rng.sample([0, 1, 2, 3, 4, 5, 10, 100, -1, 4096, 1 << 40], rng.randint(2, 6))
    w = World(rng, n=0, special=0)
    for j in range(n):
        ty = rng.choice(["s", "s", "sl", "ie"])
        a = Attr("v%d" % j, ty, rng.random() < 0.8)
        a.pool = list(ipool if ty == "ie" else pool)
        a.count = rng.choice([None, 1, 2, 3, 3, len(a.pool), len(a.pool) - 1, 900, 1200])
        w.attrs.append(a)
    w.declare(s, 0, *index_params(rng))
    g = ExprGen(rng, w, depth=rng.choice([0, 0, 1, 2]), nulls=0.03)
    for j in range(rng.choice([4, 10, 25])):
        put(s, 0, j + 1, g.text())
        if rng.random() < 0.2:
            v = EventGen(rng, w).values(0.9)
            s.search(0, ev_text(rng, w, v))
    e = EventGen(rng, w)
    for _ in range(10):
        v = e.values(rng.choice([0.6, 1.0]))
        s.search(0, ev_text(rng, w, v))
    s.free(0)
    return s


def many_values(rng):
    """long tables of values"""
    s = Scn("manyvalues")
    n = rng.choice([60, 130, 300])
    ty = rng.choice(["s", "sl", "ie"])
    a = Attr("v", ty, True)
    a.pool = [i * 3 for i in range(n)] if ty == "ie" else ["k%d" % i for i in range(n)]
    a.count = rng.choice([None, n, n - 2, n // 2, 999])
    w = World(rng, n=1, types=["s"], special=0)
    w.attrs.append(a)
    w.declare(s, 0, rng.choice([2, 3, 20]), 0)
    st = Style(rng, False)
    order = list(a.pool)
    rng.shuffle(order)
    j = 0
    while order:
        k = rng.choice([1, 1, 3, 10])
        vs, order = order[:k], order[k:]
        j += 1
        if ty == "ie":
            for v in vs:
                put(s, 0, j, "v = %s" % st.int(v))
                j += 1
        elif ty == "s":
            put(s, 0, j, "v in (%s)" % ", ".join("'%s'" % v for v in vs))
        else:
            put(s, 0, j, "v one of (%s)" % ", ".join("'%s'" % v for v in vs))
    s.walk(0)
    e = EventGen(rng, w)
    for _ in range(10):
        v = e.values(0.9)
        s.search(0, ev_text(rng, w, v))
    s.free(0)
    return s


def structure(rng):
    """the tree after every insertion"""
    r = rng.random()
    if r < 0.6:
        ty = rng.choice([["i"], ["i", "f"], ["i", "b", "s"], ["il"], ["sl", "s"], ["f"], ["ie", "s"], ["i", "il", "sl"], None])
        w = World(rng, n=rng.randint(1, 4), types=ty, special=0.1, wide=0.08, tricky=0, capped=0.8)
    else:
        w = World(rng, special=0.2)
    s = Scn("structure")
    w.declare(s, 0, rng.choice([1, 1, 2, 2, 3, 3, 5]), rng.choice([0, 0, 0, 1, 3]))
    g = ExprGen(rng, w, depth=rng.choice([0, 1, 1, 2, 3]), nots=0.25, nulls=0.08)
    n = rng.choice([6, 15, 30])
    two = rng.random() < 0.25
    for j in range(n):
        x = g.text()
        if two:
            s.msub(0, j % 100, j + 1, x, consts_for(x))
            s.isub(0, j % 100)
        else:
            put(s, 0, j + 1, x)
        if j > 2 and (n < 20 or j % 4 == 0):
            s.walk(0)
        if rng.random() < 0.1:
            s.find(0, rng.randint(1, j + 3))
    s.walk(0)
    for j in rng.sample(range(0, n + 4), min(n, 12)):
        s.find(0, j)
    s.free(0)
    return s


def stuck(rng, n=None, cap=None, ask="s"):
    """conditions that reach over the middle of every range, so that no partition takes them, then narrow ones"""
    s = Scn("stuck")
    ty = rng.choice(["i", "i", "f", "il", "s", "sl", "ie"])
    w = World(rng, n=1, types=[ty], special=0, tricky=0, wide=0, capped=1.0, big=0, und=0.8)
    a = w.attrs[0]
    st = Style(rng, False)
    cap = cap or rng.choice([1, 3, 5, 20, 255])
    n = n or rng.choice([4, 10, 25, 40])
    if a.ty in ("i", "il", "f"):
        span = rng.choice([20, 200, 900])
        a.lo = rng.choice([0, -span // 2, -span - 5, 0, -span // 2, (1 << 31) - span // 2, -(1 << 31) - span // 2, (1 << 32) - span // 2])
        a.hi = a.lo + span
        lo, hi = int(a.lo), int(a.hi)
        nums = list(range(lo, hi + 1))
        if a.ty == "il":
            wide = lambda j: "%s one of (%d, %d)" % (a.name, lo + j % (span // 2 - 1), hi - (j // 7) % (span // 2 - 1))
            thin = lambda: "%s one of (%d)" % (a.name, rng.choice(nums))
        else:
            # every kind of test that a value on either side of the middle can pass
            wide = lambda j: rng.choice(["%s > %d", "%s >= %d"]) % (a.name, lo + j % (span // 2 - 1)) if j % 3 else \
                "%s <> %d" % (a.name, lo + j % span)
            thin = lambda: rng.choice(["%s = %d" % (a.name, rng.choice(nums)), "%s < %d" % (a.name, lo + 3), "%s > %d" % (a.name, hi - 2)])
        a.pool = [Fraction(x) if a.ty == "f" else x for x in rng.sample(nums, 8)] + [Fraction(lo) if a.ty == "f" else lo]
    else:
        k = rng.choice([6, 12, 40])
        a.pool = words(rng, k, "numbered") if a.ty != "ie" else list(range(10, 10 + k))
        a.count = len(a.pool)
        q = (lambda v: st.string(v)) if a.ty != "ie" else str
        wide = lambda j: (("not (%s = %s)" if a.ty != "sl" else "%s none of (%s)") % (a.name, q(rng.choice(a.pool)))) if j % 2 else \
            ("%s %s (%s, %s)" % (a.name, "in" if a.ty != "sl" else "one of", q(a.pool[0]), q(a.pool[-1])) if a.ty != "ie" else
             "%s <> %s" % (a.name, q(rng.choice(a.pool))))
        thin = lambda: ("%s = %s" if a.ty != "sl" else "%s one of (%s)") % (a.name, q(rng.choice(a.pool)))
    w.declare(s, 0, cap, 0)
    order = [wide] * n + [None] * rng.choice([3, 10, 20])
    if rng.random() < 0.3:
        rng.shuffle(order)
    if a.ty not in ("i", "il", "f"):
        # the values known in order before anything is filed
        for j, v in enumerate(a.pool):
            s.ins(0, 2000 + j, ("%s = %s" if a.ty != "sl" else "%s one of (%s)") % (a.name, q(v)))
    for j, f in enumerate(order):
        s.ins(0, j + 1, f(j) if f else thin())
    s.walk(0)
    for j in (1, len(order) // 2, len(order), 3000):
        s.find(0, j)
    e = EventGen(rng, w)
    for _ in range(4 if n > 100 else 8):
        txt = ev_text(rng, w, e.values(rng.choice([0.9, 1.0])))
        s.search(0, txt)
        if "x" in ask:
            s.exists(0, txt)
    s.free(0)
    return s


def pruning(rng):
    """evaluated counts on split indexes"""
    ty = rng.choice([["i"], ["i", "f"], ["i", "b", "s"], ["il"], ["sl", "s"], ["f"], ["ie", "s"], ["i", "il", "sl"], None])
    w = World(rng, n=rng.randint(1, 5), types=ty, special=0.1, wide=0.08, tricky=0, capped=0.8, und=rng.choice([0.3, 0.7, 1.0]))
    s = Scn("pruning")
    w.declare(s, 0, rng.choice([1, 1, 2, 3]), rng.choice([0, 0, 0, 1]))
    g = ExprGen(rng, w, depth=rng.choice([0, 0, 1, 2]), nulls=0.05)
    for j in range(rng.choice([8, 20, 40])):
        put(s, 0, j + 1, g.text())
    s.walk(0)
    e = EventGen(rng, w)
    for _ in range(14):
        v = e.values(rng.choice([0.3, 0.8, 1.0]))
        if rng.random() < 0.75:
            s.search(0, ev_text(rng, w, v))
        else:
            s.event(0, "s", ev_fields(rng, w, v))
    s.free(0)
    return s


NOWS = [100, 1000, 1700000000, 1700000000, (1 << 31) - 1, 1 << 31, (1 << 31) + 50, 3000000000, 1 << 32, (1 << 32) + 7, 5000000000, 9000000000000]


def caps(rng):
    """frequency caps at their boundaries"""
    s = Scn("caps")
    w = World(rng, n=rng.randint(0, 1), special=0, und=1.0)
    w.add_special(["fc"], rng.choice([0.5, 1.0]))
    n = 10
    specs = []
    now = rng.choice(NOWS)
    for t in range(n):
        k = rng.choice(KINDS) + rng.choice(["", "", ":ip"])
        ns = rng.choice(["ns", "", "other", "ns"])
        lim = rng.choice([0, 1, 2, 3, 100, 100, 255, 256, 2147483647, 2147483648, 4294967295, 4294967296, 4294967298, 1 << 40])
        win = rng.choice([0, 0, 1, 10, 50, 100, 86400, 1000000, 65536, 2147483647, 2147483648, 4294967295, 4294967296, 4294967306, 5000000000])
        cs = [(c, rng.choice([0, 10, 20, 30, 2147483647])) for c, _ in CONSTS]
        if rng.random() < 0.15:
            rng.shuffle(cs)
            cs = cs[:rng.randint(1, 4)]
        specs.append((k, ns, lim, win, cs))
        w.declare(s, t)
        x = "within_frequency_cap('%s', '%s', %d, %d)" % (k, ns, lim, win)
        if rng.random() < 0.2:
            x = "not " + x
        s.ins(t, t + 1, x, cs)
    for _ in range(8):
        entries = []
        for _ in range(rng.choice([0, 1, 2, 4, 6, 10, 20])):
            k, ns, lim, win, cs = rng.choice(specs)
            base = k.split(":")[0]
            ids = dict(cs)
            i = ids.get(CONST[base], 10)
            r = rng.random()
            if r < 0.15:
                k = rng.choice(KINDS) + rng.choice(["", ":ip"])
            elif r < 0.25:
                i = rng.choice([10, 20, 30, 11])
            elif r < 0.35:
                ns = rng.choice(["ns", "", "other", "never"])
            c = min(4294967295, max(0, lim + rng.choice([-1, 0, 1, 0, -1, 1, -lim, 256])))
            ts = max(0, (now - win) * 1000000 + rng.choice([0, -1, 1, -1000000, 1000000, -1000001, 999999, 1000001, -999999]))
            if rng.random() < 0.15:
                ts = now * 1000000
            entries.append((k, i, ns, c, ts))
        v = {CAPS: entries, NOW: now + rng.choice([0, 0, 0, 1, -1])}
        if rng.random() < 0.08:
            del v[rng.choice([CAPS, NOW])]
        for a in w.attrs:
            if a.name not in v and a.name not in (CAPS, NOW):
                v[a.name] = EventGen(rng, w).value(a)
        cons = rng.random() < 0.5
        if cons and CAPS in v:
            v[CAPS] = [(a, b, c, d, ts if rng.random() < 0.7 else None) for a, b, c, d, ts in v[CAPS]]
        txt = None if cons else ev_text(rng, w, v)
        f = ev_fields(rng, w, v) if cons else None
        for t in range(n):
            if cons:
                s.event(t, "s", f)
            else:
                s.search(t, txt)
    for t in range(n):
        s.free(t)
    return s


def segs(rng):
    s = Scn("segments")
    w = World(rng, n=rng.randint(0, 1), special=0, und=1.0)
    w.add_special(rng.choice([["seg"], ["seg2"], ["seg", "seg2"]]), rng.choice([0.5, 1.0]))
    sa = [a for a in w.attrs if a.ty == "seg"]
    now = rng.choice(NOWS)
    n = 10
    ids = [1, 2, 3, 5, 10, 1 << 33, 0, -4]
    if rng.random() < 0.4:
        ids = sorted({rng.randint(-20, 100) for _ in range(rng.choice([12, 25, 40]))} | {1 << 33, (1 << 32) + 5})
    specs = []
    for t in range(n):
        a = rng.choice(sa)
        i, sec = rng.choice(ids), rng.choice([0, 1, 20, 90, 100, 86400, 65536, 2147483646, 2147483647, 2147483648, 4294967296, 4294967316])
        specs.append((i, sec))
        named = "" if a.name == SEG and rng.random() < 0.6 else a.name + ", "
        w.declare(s, t)
        x = "segment_%s(%s%d, %d)" % (rng.choice(["within", "before"]), named, i, sec)
        if rng.random() < 0.2:
            x = "not " + x
        s.ins(t, t + 1, x)
    for _ in range(8):
        v = {NOW: max(0, now + rng.choice([0, 0, 0, 1, -1]))}
        for a in sa:
            if rng.random() < 0.9:
                m = []
                for i in sorted(rng.sample(ids, rng.choice([0, 1, 2, 4] if len(ids) < 10 else [3, 8, 9, 10, len(ids) // 2, len(ids)]))):
                    sec = rng.choice([y for x, y in specs if x == i] or [rng.choice([0, 1, 20, 100])])
                    ts = max(0, (v[NOW] - sec) * 1000000 + rng.choice([0, -1, 1, -1000000, 1000000, 999999, -999999, 500000]))
                    m.append((i, ts))
                    if rng.random() < 0.1:
                        m.append((i, ts + 5000000))
                v[a.name] = m
        if rng.random() < 0.08:
            del v[NOW]
        for a in w.attrs:
            if a.name not in v and a.ty != "seg" and a.name != NOW:
                v[a.name] = EventGen(rng, w).value(a)
        cons = rng.random() < 0.5
        txt = None if cons else ev_text(rng, w, v)
        f = ev_fields(rng, w, v) if cons else None
        for t in range(n):
            if cons:
                s.event(t, "s", f)
            else:
                s.search(t, txt)
    for t in range(n):
        s.free(t)
    return s


def patterns(rng):
    s = Scn("patterns")
    n = 12
    al = rng.choice(["ab", "a", "abc", "aA", "ab ", "a%.*", "\xc3\xa9a"])
    w = World(rng, n=0, special=0)
    w.attrs.append(Attr("txt", "s", rng.random() < 0.7, count=rng.choice([None, 3, 1000]), pool=["x"]))
    mk = lambda m: "".join(rng.choice(al) for _ in range(rng.randint(0, m)))
    m = rng.choice([5, 5, 5, 12, 40, 300])
    pats = [mk(rng.choice([5, m])) for _ in range(n)]
    st = Style(rng, False)
    for t in range(n):
        w.declare(s, t)
        x = "%s(txt, %s)" % (rng.choice(["contains", "starts_with", "ends_with"]), st.string(pats[t]))
        if rng.random() < 0.2:
            x = "not " + x
        s.ins(t, t + 1, x)
    for _ in range(12):
        r = rng.random()
        p = rng.choice(pats)
        txt = mk(8) if r < 0.5 else rng.choice([p, p + mk(2), mk(2) + p, mk(2) + p + mk(2), p[:-1], p[1:], p + p, mk(60),
                                                          mk(m * 3) + p + mk(m), mk(m) + p[:-1] + p, p * rng.choice([2, 3, 5])])
        v = {"txt": txt}
        e = ev_text(rng, w, v)
        for t in range(n):
            s.search(t, e)
    for t in range(n):
        s.free(t)
    return s


def places(rng):
    s = Scn("places")
    w = World(rng, n=0, special=0)
    w.add_special(["geo"], rng.choice([0.5, 1.0]))
    for a in w.attrs:
        a.lo = a.hi = None
        if rng.random() < 0.3:
            a.lo, a.hi = (Fraction(-90), Fraction(90)) if a.name == LAT else (Fraction(-180), Fraction(180))
    n = 10
    pts = []
    for t in range(n):
        w.declare(s, t)
        la, lo = rng.choice([0, 45, -45, 89, -89, 90, -90, rng.randint(-90, 90)]), rng.choice([0, 179, -179, 180, -180, rng.randint(-180, 180)])
        rad = rng.choice([0, 1, 5, 111, 112, 500, 1113, 5000, 10007, 10008, 20014, 20016, 20020, 30000])
        if rng.random() < 0.5:
            x = "geo_within_radius(%d, %d, %d)" % (la, lo, rad)
        else:
            fr = rng.choice([0, 5, 25, 123456])
            x = "geo_within_radius(%d.%d, %d.0, %d.%s)" % (la, fr if abs(la) < 90 else 0, lo, rad, rng.choice(["0", "5"]))
        pts.append((la, lo, rad))
        s.ins(t, t + 1, rng.choice(["", "", "", "not "]) + x)
    for _ in range(8):
        la, lo, rad = rng.choice(pts)
        d = Fraction(rad * 9, 1000) * rng.choice([Fraction(99, 100), Fraction(101, 100), Fraction(1, 2), 2, 0, 1])
        d = Fraction(int(d * 64), 64) * rng.choice([1, -1])
        k = rng.random()
        if k < 0.4:
            p = (la + d, Fraction(lo))
        elif k < 0.7:
            p = (Fraction(la), lo + d)
        elif k < 0.8:
            p = (Fraction(-la), Fraction(lo + 180 if lo < 0 else lo - 180))
        else:
            p = (Fraction(rng.randint(-90 * 64, 90 * 64), 64), Fraction(rng.randint(-180 * 64, 180 * 64), 64))
        p = (max(Fraction(-90), min(Fraction(90), p[0])), max(Fraction(-180), min(Fraction(180), p[1])))
        v = {LAT: p[0], LON: p[1]}
        if rng.random() < 0.06:
            del v[rng.choice([LAT, LON])]
        e = ev_text(rng, w, v)
        f = ev_fields(rng, w, v)
        for t in range(n):
            if rng.random() < 0.7:
                s.search(t, e)
            else:
                s.event(t, "s", f)
    for t in range(n):
        s.free(t)
    return s


def spelled(rng):
    """valid expressions in unusual spellings, with events that tell parses apart"""
    s = Scn("spelled")
    w = World(rng, n=rng.randint(2, 5), types=["b", "b", "b", "i", "s", "f", "il"], special=0.2, tricky=0.5, und=rng.choice([0.5, 1.0]))
    w.declare(s, 0, 255)
    g = ExprGen(rng, w, Style(rng, True), depth=rng.choice([1, 2, 3, 4]), nots=0.3, dup=0)
    for j in range(12):
        put(s, 0, j + 1, g.text())
    e = EventGen(rng, w)
    for _ in range(10):
        s.search(0, ev_text(rng, w, e.values(rng.choice([0.8, 1.0]))))
    s.free(0)
    return s


def ops_for(rng, w, g, e, nops, special=True):
    """a random sequence of calls on one index, as functions of (scenario, tree, base id)"""
    out = []
    nm = 0
    for j in range(nops):
        r = rng.random()
        if r < 0.4:
            x = g.text()
            out.append(lambda s, t, j=j, x=x: put(s, t, j + 1, x))
        elif r < 0.52:
            x, cs = refused(rng, w, g)
            out.append(lambda s, t, j=j, x=x, cs=cs: s.ins(t, 500 + j, x, cs))
        elif r < 0.6:
            x = g.text()
            out.append(lambda s, t, j=j, x=x: (s.msub(t, (t * 40 + j) % 500, j + 1, x, consts_for(x)), s.isub(t, (t * 40 + j) % 500)))
        elif r < 0.65:
            x, cs = refused(rng, w, g)
            if "over" in x:
                continue
            out.append(lambda s, t, j=j, x=x, cs=cs: s.msub(t, (t * 40 + j) % 500, 500 + j, x, cs))
        elif r < 0.7:
            x = g.text() if rng.random() < 0.5 else "undeclared_a > 1 and " + g.text()
            out.append(lambda s, t, x=x: s.chb(t, x))
        elif r < 0.75:
            f = ev_fields(rng, w, e.values(required=rng.random() < 0.8))
            out.append(lambda s, t, f=f, m=rng.choice("wl"): s.loose(m, f))
        else:
            v = e.values(required=rng.random() < 0.8)
            k = rng.random()
            if k < 0.5:
                txt = ev_text(rng, w, v)
                out.append(lambda s, t, txt=txt, j=j, reuse=rng.random() < 0.4: s.search(t, txt, reuse=reuse, tw=("?", j + 1)))
            elif k < 0.7:
                txt = ev_text(rng, w, v)
                out.append(lambda s, t, txt=txt: s.exists(t, txt))
            else:
                f = ev_fields(rng, w, v)
                o = rng.choice(["s", "s", "x", "sx"])
                out.append(lambda s, t, f=f, o=o, j=j: s.event(t, o, f, tw=("?", j + 1) if o == "s" else ("none", 0)))
    return out


def heavy(rng, watch=False):
    """event values with more entries than a byte counts, in text and constructed"""
    w = World(rng, n=0, special=0, und=1.0)
    k = rng.choice([256, 257, 300])
    w.add_special(["seg", "fc"], 1.0)
    for nm, ty in [("l", "il"), ("t", "sl")]:
        a = w.attr("v_" + nm, ty, True, capped=0)
        a.lo = a.hi = None
        a.pool = [3 * x - 50 for x in range(k + 30)] if ty == "il" else words(rng, k + 30, "numbered")
        w.attrs.append(a)
    s = Scn("heavy")
    w.declare(s, 0, *index_params(rng))
    st = Style(rng, False)
    now = rng.choice(NOWS)
    ids = [5 * x - 300 for x in range(k)]
    win = 1000
    caps_ = [(rng.choice(KINDS) + rng.choice(["", ":ip"]), i, rng.choice(["ns", "ns", "other"])) for i in range(1000, 1000 + k)]
    for j in range(8):
        at = rng.choice([0, 10, 100, 254, 255, k - 2, k - 1])
        put(s, 0, 10 + j, "segment_%s(%d, %d)" % (rng.choice(["within", "before"]), ids[at] + rng.choice([0, 0, 1]), win))
        kind, i, ns = caps_[rng.choice([0, 10, 100, 254, 255, k - 2, k - 1])]
        s.ins(0, 20 + j, "within_frequency_cap('%s', '%s', %d, %d)" % (kind, ns, rng.choice([1, 2, 3]), win), [(c, i) for c, _ in CONSTS])
        put(s, 0, 30 + j, "v_l %s (%s)" % (rng.choice(["one of", "all of", "none of"]), ", ".join(st.int(x) for x in rng.sample(w.by("v_l").pool, rng.choice([1, 2, k])))))
        put(s, 0, 40 + j, "v_t %s (%s)" % (rng.choice(["one of", "all of", "none of"]), ", ".join(st.string(x) for x in rng.sample(w.by("v_t").pool, rng.choice([1, 2, k])))))
    s.walk(0)
    for q in range(3):
        v = {NOW: now, SEG: [(i, max(0, (now - win) * 1000000 + rng.choice([-5000000, 5000000, 0]))) for i in ids],
             CAPS: [(kind, i, ns, rng.choice([0, 1, 2, 3]), max(0, (now - win) * 1000000 + rng.choice([-5000000, 5000000, 0]))) for kind, i, ns in caps_]}
        for nm in ("v_l", "v_t"):
            v[nm] = rng.sample(w.by(nm).pool, rng.choice([k - 1, k, k + 30]))
        for x in list(v):
            if len(v) > 3 and rng.random() < 0.1:
                del v[x]
        if q == 0 or rng.random() < 0.5:
            s.search(0, ev_text(rng, w, v), reuse=rng.random() < 0.3)
        else:
            s.event(0, rng.choice(["s", "sx", "xs"]), ev_fields(rng, w, v))
    s.free(0)
    s.ledger()
    return s


def lifecycle(rng):
    """several indexes interleaved, compared with each alone; memory balance at the end"""
    s = Scn("lifecycle")
    k = rng.choice([1, 2, 2, 3])
    plans = []
    many = rng.random() < 0.12
    for i in range(k):
        if many:
            # as many attributes as fill words of a bitmap, or nearly so
            w = World(rng, n=rng.choice([31, 32, 33, 63, 64, 65, 66, 96, 127, 128, 129, 192, 200]), special=0, capped=0.5, big=0,
                      und=rng.choice([0.9, 1.0]))
            g = ExprGen(rng, w, depth=rng.choice([0, 1, 2]), only=hot(rng, w, 8))
        else:
            w = World(rng, n=rng.randint(1, 4), special=0.4, capped=0.5)
            g = ExprGen(rng, w, depth=rng.choice([0, 1, 2]))
        plans.append((w, ("own", 0) if rng.random() < 0.15 else index_params(rng), ops_for(rng, w, g, EventGen(rng, w), rng.choice([4, 12, 20]))))

    class Rec:
        """binds the twin groups of one index"""
        def __init__(self, base, mode):
            self.base, self.mode = base, mode

        def __getattr__(self, n):
            f = getattr(s, n)

            def call(*a, **kw):
                if "tw" in kw and kw["tw"][0] == "?":
                    kw["tw"] = (self.mode, self.base + kw["tw"][1])
                return f(*a, **kw)
            return call
    # interleaved
    todo = [(i, list(p[2])) for i, p in enumerate(plans)]
    for i, (w, par, _) in enumerate(plans):
        w.declare(s, i, *par)
        s.defs(i, len(w.attrs))
    while any(t for _, t in todo):
        i, t = rng.choice([x for x in todo if x[1]])
        t.pop(0)(Rec(1000 * (i + 1), "set"), i)
    order = list(range(k))
    rng.shuffle(order)
    if rng.random() < 0.5:
        for i in order:
            s.free(i)
        s.ledger()
        order = []
    # alone
    for i, (w, par, ops) in enumerate(plans):
        w.declare(s, 10 + i, *par)
        for o in ops:
            o(Rec(1000 * (i + 1), "eq"), 10 + i)
        s.free(10 + i)
    for i in order:
        s.free(i)
    s.ledger()
    return s


# --------------------------------------------------------------------------- P20, P21

def decl_line(rng, a):
    """an attribute as a line of text"""
    w = [a.name, Scn.TEXT[a.ty], "true" if a.und else "false"]
    st = Style(rng, False)
    zeros = rng.choice(["", "", "", "0", "00"])

    def put(t):
        w.append("-" + zeros + t[1:] if t[0] == "-" else zeros + t)
    if a.ty in ("i", "il") and a.lo is not None:
        put(str(a.lo))
        if a.hi is not None:
            put(str(a.hi))
    elif a.ty == "f" and a.lo is not None:
        put(st.num(a.lo))
        if a.hi is not None:
            put(st.num(a.hi))
    elif a.ty in ("s", "sl", "ie") and a.count is not None:
        put(str(a.count))
    return "|".join(w) + rng.choice(["", "\n"])


def declared(rng):
    """attributes declared by calls and by lines of text"""
    w = World(rng, n=rng.randint(1, 10), special=0.4, und=rng.choice([0.5, 0.8, 1.0]), wide=rng.choice([0.1, 0.6]), capped=0.6)
    for a in w.attrs:
        if a.ty in ("s", "sl", "ie") and a.count is not None:
            a.count = max(a.count, rng.choice([len(a.pool), 1]))
        if a.ty in ("i", "f") and a.lo is not None and rng.random() < 0.2 and a.name not in (LAT, LON):
            a.hi = None
    s = Scn("declared")
    cap, part = index_params(rng)
    w.declare(s, 0, cap, part)
    s.tree(1, cap, part)
    for a in w.attrs:
        if rng.random() < 0.9:
            s.vart(1, decl_line(rng, a))
        else:
            s.var(1, a.ty, a.name, a.und, a.lo, a.hi, a.count)
    for t in (0, 1):
        s.defs(t, len(w.attrs))
        s.doms(t)
    for a in w.attrs:
        if a.ty in ("i", "f") and a.lo is not None and a.hi is None:
            a.hi = max(a.pool)
    g = ExprGen(rng, w, depth=rng.choice([0, 1, 2]))
    for j in range(rng.choice([2, 6, 15, 30])):
        x = g.text()
        cs = consts_for(x)
        for t in (0, 1):
            s.ins(t, j + 1, x, cs)
        # a refusal for capacity depends on the history alone: both indexes agree
    s.walk(0, tw=("set", 900))
    s.walk(1, tw=("eq", 900))
    e = EventGen(rng, w)
    for q in range(6):
        txt = ev_text(rng, w, e.values(required=rng.random() < 0.85))
        s.search(0, txt, tw=("set", q + 1))
        s.search(1, txt, tw=("eq", q + 1))
        if rng.random() < 0.3:
            s.exists(1, txt, tw=("ex", q + 1))
    s.free(0)
    s.free(1)
    s.ledger()
    return s


def emptied(rng):
    """fill, query, empty, fill again"""
    w = World(rng, n=rng.randint(1, 6), special=0.3, und=rng.choice([0.7, 1.0]), capped=0.4)
    s = Scn("emptied")
    cap, part = index_params(rng)
    s.tree(0, cap, part)
    for a in w.attrs:
        if rng.random() < 0.5:
            s.vart(0, decl_line(rng, a))
        else:
            s.var(0, a.ty, a.name, a.und, a.lo, a.hi, a.count)
    g = ExprGen(rng, w, depth=rng.choice([0, 1, 2]))
    e = EventGen(rng, w)
    two = rng.random() < 0.3
    if rng.random() < 0.2:
        s.empty(0)
    q = 0
    for rd in range(rng.choice([2, 2, 3])):
        es = [g.text() for _ in range(rng.choice([0, 1, 5, 15, 40]))]
        fresh = None
        if rng.random() < 0.8:
            fresh = rd + 1
            at = []
            for a in w.attrs:
                b = a.clone()
                if b.ty in ("s", "sl", "ie"):
                    b.count = None
                at.append(b)
            w.declare(s, fresh, 255, 0, attrs=at)
            if any(a.ty in ("s", "sl", "ie") and a.count is not None for a in w.attrs):
                fresh = None        # what is refused for capacity depends on earlier rounds
        for j, x in enumerate(es):
            i = rng.choice([j + 1, rd * 100 + j + 1, 7])
            if two and rng.random() < 0.5:
                s.msub(0, j, i, x, consts_for(x))
                s.isub(0, j)
            else:
                put(s, 0, i, x)
            if fresh:
                put(s, fresh, i, x)
        if rng.random() < 0.3:
            s.ins(0, 999, *refused(rng, w, g))
        if rng.random() < 0.8:
            s.walk(0)
        for _ in range(4):
            q += 1
            txt = ev_text(rng, w, e.values(required=rng.random() < 0.9))
            if fresh:
                s.search(fresh, txt, tw=("set", q))
            s.search(0, txt, reuse=rng.random() < 0.2, tw=("eq" if fresh else "set", q))
            s.exists(0, txt, tw=("ex", q))
            if rng.random() < 0.3:
                v = e.values()
                s.event(0, rng.choice(["s", "sx", "xs"]), ev_fields(rng, w, v))
        s.empty(0)
        s.walk(0)
        q += 1
        txt = ev_text(rng, w, e.values())
        s.search(0, txt, tw=("set", q))
        s.exists(0, txt, tw=("ex", q))
        s.defs(0, len(w.attrs))
        s.doms(0)
    for t in sorted({st["t"] for st in s.steps if st["a"] == "make"}):
        s.free(t)
    s.ledger()
    return s


class Coarse(ExprGen):
    """fractional constants with at most two decimals"""

    def val(self, a):
        v = super().val(a)
        return Fraction(int(v * 100), 100) if a.ty == "f" else v


def faithful(rng):
    """printing, copying and comparing built expressions"""
    w = World(rng, n=rng.randint(1, 6), special=0.6, und=1.0, capped=0, wide=0.2)
    s = Scn("faithful")
    w.declare(s, 0, *index_params(rng))
    g = Coarse(rng, w, Style(rng), depth=rng.choice([0, 0, 1, 2]), nulls=0.2, dup=0.2)
    n = rng.choice([6, 12, 16])
    pool = []
    for _ in range(n):
        r = rng.random()
        if r < 0.5:
            pool += nearmiss(rng, g)
        else:
            pool.append(g.text())
        if r < 0.2:
            x = pool[-1]
            pool.append("not (%s)" % x)
        elif r < 0.3:
            pool.append("(%s) %s (%s)" % (pool[-1], rng.choice(["and", "or"]), rng.choice(pool)))
    rng.shuffle(pool)
    cs = [rng_consts(rng, x) or () for x in pool[:n]]
    for j, x in enumerate(pool[:n]):
        s.msub(0, j, j + 1, x, cs[j])
    for j in range(n):
        s.show(0, j)
    s.order(0, list(range(n)))
    # the copies alone in their index answer as the originals alone in another
    if rng.random() < 0.5:
        w.declare(s, 1, *index_params(rng))
        for j in range(n):
            s.dup(0, j, n + j, j + 1)
        for j in range(n):
            s.isub(0, n + j)
        for j, x in enumerate(pool[:n]):
            s.msub(1, 2 * n + j, j + 1, x, cs[j])
            s.isub(1, 2 * n + j)
        e = EventGen(rng, w)
        for q in range(6):
            txt = ev_text(rng, w, e.values())
            s.search(1, txt, tw=("set", q + 1))
            s.search(0, txt, tw=("eq", q + 1))
        s.free(1)
    for j in range(n):
        s.isub(0, j)
    s.walk(0)
    s.free(0)
    s.ledger()
    return s


# --------------------------------------------------------------------------- P22

def loose_ends(rng, w):
    """every combination of open and closed ends, ranges that the constants leave"""
    out = [a.clone() for a in w.attrs]
    for a in out:
        if a.name in (NOW, LAT, LON):
            continue
        if a.ty in ("i", "il", "f"):
            r = rng.random()
            if a.lo is None:
                continue
            if r < 0.3:
                a.lo = a.hi = None
            elif r < 0.55:
                m = rng.choice(a.pool)
                a.lo, a.hi = m, m + rng.choice([0, 0, 1, 5])
            elif r < 0.7 and a.ty != "il":
                a.lo = None
            elif r < 0.85 and a.ty != "il":
                a.hi = None
        elif a.ty in ("s", "sl", "ie") and rng.random() < 0.5:
            a.count = rng.choice([None, 1, 2, 3, 50])
    return out


class Straying(ExprGen):
    """constants on all sides of the declared ranges"""

    def val(self, a):
        rng = self.rng
        v = rng.choice(a.pool)
        if a.ty in ("i", "il") and rng.random() < 0.4:
            v = max(-BIG, min(BIG, v + rng.choice([-1, 1, -1000, 1000, -(1 << 33), 1 << 33])))
        elif a.ty == "f" and rng.random() < 0.4:
            v += rng.choice([Fraction(1, 64), -Fraction(1, 64), 1, -1, 500, -500])
        return v


def learned(rng):
    """the same expressions learned in several ways, in between everything else an index does"""
    w = World(rng, n=rng.choice([1, 1, 2, 3, 6, 20]), special=0.3, wide=rng.choice([0.1, 0.6]), capped=0.5)
    attrs = loose_ends(rng, w)
    g = Straying(rng, w, depth=rng.choice([0, 0, 1, 2, 3]), nots=rng.choice([0.1, 0.4]))
    es = [g.text() for _ in range(rng.choice([1, 2, 3, 6, 12]))]
    stored = [g.text() for _ in range(rng.choice([0, 3, 10, 30]))]
    s = Scn("learned")
    bare = [a.clone(count=None) if a.ty in ("s", "sl", "ie") else a for a in attrs]
    cap, part = index_params(rng)
    # 0: learned one after the other; 1: in another order, or joined; 2: built; 3: in the middle of other calls; 4: never
    for t in range(3):
        w.declare(s, t, cap, part, attrs=attrs)
        s.ranges(t)
    for x in es:
        s.chb(0, x)
        if rng.random() < 0.5:
            s.ranges(0)
    s.ranges(0, tw=("set", 1))
    order = es + [rng.choice(es) for _ in range(rng.randint(0, 2))]
    rng.shuffle(order)
    if rng.random() < 0.4:
        s.chb(1, rng.choice([" and ", " or "]).join("(%s)" % x for x in order))
    else:
        for x in order:
            s.chb(1, x)
    s.ranges(1, tw=("eq", 1))
    for j, x in enumerate(es):
        s.msub(2, j, j + 1, x, consts_for(x))
        if rng.random() < 0.3:
            s.ranges(2)
    s.ranges(2, tw=("eq", 1))
    for j in range(len(es)):
        s.isub(2, j)
    s.ranges(2, tw=("eq", 1))
    w.declare(s, 3, cap, part, attrs=bare)
    w.declare(s, 4, 255, 0, attrs=bare)
    e = EventGen(rng, w)
    todo = [("learn", x) for x in es] + [("store", j) for j in range(len(stored))]
    rng.shuffle(todo)
    q = 10
    for kind, x in todo:
        if kind == "learn":
            s.chb(3, x)
        else:
            put(s, 4, x + 1, stored[x])
            if rng.random() < 0.3:
                s.msub(3, 100 + x, x + 1, stored[x], consts_for(stored[x]))
                s.isub(3, 100 + x)
            else:
                put(s, 3, x + 1, stored[x])
        r = rng.random()
        if r < 0.1:
            s.chb(3, rng.choice(["(%s", "%s and undeclared_q = 1", "not (%s) or undeclared_q one of (1,2)", "%s and and true"]) % g.text())
        elif r < 0.2:
            s.msub(3, 99, 99, *refused(rng, World_without_counts(w, bare), g))
        if r < 0.3:
            s.ranges(3)
        if rng.random() < 0.15:
            q += 1
            t = ev_text(rng, w, e.values())
            s.search(4, t, tw=("set", q))
            s.search(3, t, tw=("eq", q))
    s.ranges(3)
    for _ in range(6):
        q += 1
        t = ev_text(rng, w, e.values())
        s.search(4, t, tw=("set", q))
        s.search(3, t, tw=("eq", q))
        if rng.random() < 0.3:
            s.exists(3, t, tw=("ex", q))
    s.ranges(3)
    if rng.random() < 0.4:
        s.empty(3)
        s.ranges(3)
        for x in rng.sample(es, min(2, len(es))):
            s.chb(3, x)
            s.chb(3, g.text())
        s.ranges(3)
    s.doms(3)
    for t in range(5):
        s.free(t)
    s.ledger()
    return s


class World_without_counts:
    def __init__(self, w, attrs):
        self.attrs = attrs
        self.by = w.by


# property -> (kinds that violate it, [(family, weight)])
PROFILES = {
    "P01": ({"answer"}, [(many_parts, 0.3), (stuck, 0.4), (bulk, 0.15), (kept, 0.4), (singles, 1), (lists, 0.5), (caps, 0.3), (segs, 0.3), (patterns, 0.3), (identity, 1), (undef, 1),
                         (lambda r: mixed(r, ops="s", growing=r.random() < 0.3), 4), (deep, 2), (wide, 1), (crowd, 0.4),
                         (lambda r: mixed(r, ops="s", ne=120, depth=1, nev=4), 0.5)]),
    "P02": ({"twin"}, [(twin, 3), (twin_deep, 3)]),
    "P03": ({"answer"}, [(lambda r: singles(r, types=["i", "i", "f", "s", "il", "il", "sl", "ie", "b"], wide=0.5), 4),
                         (lambda r: singles(r, types=["il"]), 1), (lambda r: singles(r, types=["sl"]), 0.5), (lists, 2)]),
    "P04": ({"answer"}, [(undef, 4), (forms, 1)]),
    "P05": ({"twin", "sharing"}, [(shared, 4), (shared_many, 0.4)]),
    "P06": ({"exsearch", "twin", "exists"}, [(existence, 1), (kept, 0.15), (late, 0.15), (lambda r: many_parts(r, "sx"), 0.05)]),
    "P07": ({"twin"}, [(spellings, 1), (kept, 0.3)]),
    "P08": ({"twin", "accept"}, [(rejections, 3), (malformed, 1)]),
    "P09": ({"required"}, [(required, 1)]),
    "P10": ({"report", "evaluated", "shorted", "memoized"},
            [(lambda r: mixed(r, ops="s", reuse=r.random() < 0.5, growing=r.random() < 0.2, dupids=0, dup=r.choice([0.1, 0.4])), 4),
             (lambda r: wide(r, reuse=True), 0.7), (lambda r: crowd(r, True), 0.5), (deep, 1), (kept, 0.3)]),
    "P11": ({"twin", "accept"}, [(twophase, 2), (builds, 1), (overbuilt, 1)]),
    "P12": ({"answer", "accept"}, [(identity, 4), (kept, 0.6), (many_values, 0.3)]),
    "P13": ({"struct"}, [(structure, 4), (stuck, 1)]),
    "P14": ({"answer", "accept"}, [(caps, 1), (heavy, 0.05)]),
    "P15": ({"answer", "accept"}, [(segs, 1), (heavy, 0.05)]),
    "P16": ({"answer", "accept"}, [(patterns, 1), (places, 1)]),
    "P17": ({"answer", "accept"}, [(spelled, 2), (malformed, 1)]),
    "P18": ({"ledger", "twin", "defs"}, [(lifecycle, 1), (kept, 0.4)]),
    "P19": ({"evaluated"}, [(pruning, 3), (stuck, 0.5), (deep, 1), (wide, 0.3)]),
    "P20": ({"defs", "twin", "accept", "ledger"}, [(declared, 1), (emptied, 1)]),
    "P21": ({"print", "copy", "order", "sharing", "ledger", "twin"}, [(faithful, 1)]),
    "P22": ({"ranges", "twin"}, [(learned, 1)]),
}


# run by every check first, whatever the seed picks later
def big_index(ops):
    return lambda r: mixed(r, ops=ops, ne=300, depth=1, nev=4, walk=True)


FIRST = {
    "P01": [forms, forms, heavy, lambda r: bulk(r, 1100), lambda r: bulk(r, 2100), big_index("s"), crowd, wide, beyond(), many_parts] + [lambda r: stuck(r, 262, 255)] * 3,
    "P02": [twin_deep, lambda r: twin(r, nmax=200)],
    "P03": [lists] * 6 + [lambda r: longest(r, ["il"]), lambda r: longest(r, ["sl"]), longest] * 2 + [heavy] * 4,
    "P04": [forms] * 6 + [undef, beyond(), beyond()],
    "P05": [shared_many, shared_many],
    "P06": [late, late, lambda r: many_parts(r, "sx"), big_index("sx"), beyond("sx")],
    "P07": [long_spellings] * 5,
    "P09": [lambda r: required(r, r.choice([256, 257, 300])), lambda r: required(r, r.choice([256, 257, 300]))],
    "P10": [forms, forms, lambda r: bulk(r, 1100), lambda r: crowd(r, True), lambda r: wide(r, reuse=True), beyond("s", True), big_index("s")],
    "P12": [many_values, many_values],
    "P13": [big_index("s"), big_index("s"), lambda r: stuck(r, 262, 3)] + [lambda r: stuck(r, 262, 255)] * 3,
    "P14": [heavy] * 3,
    "P15": [heavy] * 3,
    "P18": [beyond("sx", True), heavy, heavy, heavy],
    "P19": [forms, forms, forms, big_index("s"), lambda r: bulk(r, 1100), wide, beyond()],
}


def scenario(prop, seed, i):
    rng = random.Random("%s/%d/%d" % (prop, seed, i))
    fams = PROFILES[prop][1]
    first = FIRST.get(prop, [])
    f = first[i] if i < len(first) else rng.choices([x[0] for x in fams], [x[1] for x in fams])[0]
    for again in range(8):
        try:
            s = f(rng)
            break
        except (ValueError, IndexError, KeyError):     # a draw no proposal can be made of: draw another
            rng = random.Random("%s/%d/%d/%d" % (prop, seed, i, again))
    s.name = "%s_%d_%d" % (prop, seed, i)
    return s
