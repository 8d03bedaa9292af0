"""Random worlds, expressions, events and call histories for the conformance checks.

Everything here only proposes inputs; what the right answers are is decided by the TLA+
specification (spec/BETrace.tla and the modules below it).
"""
import random
from fractions import Fraction
from belib import Scn, I64MIN, I64MAX

BIG = (1 << 63) - 10
KINDS = ["advertiser", "campaign", "campaign_group", "product", "flight"]
CONST = {"advertiser": "advertiser_id", "campaign": "campaign_id", "campaign_group": "campaign_group_id",
         "product": "product_id", "flight": "flight_id"}
SEG, CAPS, NOW, LAT, LON = "segments_with_timestamp", "frequency_caps", "now", "latitude", "longitude"
TRICKY = ["inside", "international", "not_a", "nothing", "and_x", "or1", "is_x", "one_of", "in_list", "true_x",
          "falsey", "none-of", "all_of", "null", "is-null", "contains_x", "geo", "a-1", "x_2", "innot", "_p"]


RESERVED = {"or", "in", "is", "of", "and", "not", "all", "one", "none", "true", "false", "null", "empty"}


def q64(rng, lo, hi):
    """multiple of 1/64 in [lo, hi]"""
    return Fraction(rng.randint(int(lo * 64), int(hi * 64)), 64)


class Attr:
    def __init__(self, name, ty, und, lo=None, hi=None, count=None, pool=()):
        self.name, self.ty, self.und, self.lo, self.hi, self.count = name, ty, und, lo, hi, count
        self.pool = list(pool)      # values expressions and events prefer

    def clone(self, **kw):
        a = Attr(self.name, self.ty, self.und, self.lo, self.hi, self.count, self.pool)
        for k, v in kw.items():
            setattr(a, k, v)
        return a


_CLASH = []


def clashes():
    """groups of names that well-known string hashes (djb2, its xor form, FNV-1a, sums) cannot tell apart"""
    if not _CLASH:
        al = "abcdefghijklmnopqrstuvwxyz0123456789_"
        two = [a + b for a in al[:26] for b in al]
        hashes = []
        for mul, init in ((33, 5381), (33, 0), (31, 0), (1, 0)):
            def hx_(w, mul=mul, init=init):
                h = init
                for c in w:
                    h = ((h * mul) ^ ord(c)) & 0xffffffff
                return h

            def ha_(w, mul=mul, init=init):
                h = init
                for c in w:
                    h = (h * mul + ord(c)) & 0xffffffff
                return h
            hashes += [hx_, ha_]
        for h in hashes:
            g = {}
            for w in two:
                g.setdefault(h(w), []).append(w)
            _CLASH.append([x for x in g.values() if len(x) > 1])
    return _CLASH


def clash_words(rng, n):
    """n distinct names made of colliding pairs, joined so that longer names collide too"""
    fam = rng.choice([x for x in clashes() if x])
    out = []
    while len(out) < n:
        g = rng.choice(fam)
        pre = rng.choice(["", "", rng.choice(rng.choice(fam))])
        post = rng.choice(["", "", "x", "10"])
        # the hash state before the pair matters for xor forms: only suffixes keep a collision
        for w in rng.sample(g, min(len(g), rng.randint(2, 4))):
            for v in {w + post, (pre + w + post) if rng.random() < 0.2 else w}:
                if v not in out:
                    out.append(v)
    return out[:n]


def words(rng, n, style=None):
    style = style or rng.choice(["short", "short", "words", "odd", "clash", "numbered", "long"])
    if style == "clash":
        return clash_words(rng, n)
    out = set()
    t = 0
    while len(out) < n:
        t += 1
        if style == "short":
            w = "".join(rng.choice("ab") for _ in range(rng.randint(0 if t > 2 else 1, 3)))
        elif style == "numbered":
            w = "%s%d" % (rng.choice(["k", "", "item-"]), rng.choice([t, t * 7, t % 3]))
        elif style == "long":
            w = "".join(rng.choice("ab") for _ in range(2)) * rng.choice([5, 8, 16, 31, 32, 40]) + "x" * rng.choice([0, 0, 1, 2])
        elif style == "words":
            w = rng.choice(["us", "uk", "fr", "ca", "news", "sport", "a b", "and", "in", "not", "x=1", "Zed", "zed"]) + \
                rng.choice(["", "", "1", "_2"])
        else:
            w = "".join(rng.choice("aZ09 ._,:;()[]{}<>=!?&|%#@~^$*+-/\\\t\x7f\xc3\xa9\xff") for _ in range(rng.randint(1, 6)))
            w = w.replace("\\", "")
        if t > 60:
            w += str(t)
        out.add(w)
    out = sorted(out)
    rng.shuffle(out)
    return out


class World:
    """declared attributes of an index"""

    def __init__(self, rng, n=None, types=None, und=None, special=0.3, wide=0.3, capped=0.3, tricky=0.2, small=False, big=0.1):
        self.rng = rng
        self.big = big
        n = n if n is not None else rng.randint(1, 7)
        types = types or ["b", "i", "i", "f", "s", "s", "il", "sl", "ie"]
        und = und if und is not None else rng.choice([0.5, 0.8, 1.0, 1.0])
        self.attrs = []
        names = set()
        clash = clash_words(rng, n) if rng.random() < 0.1 else None
        near = rng.choice(["run", "long", "bits"]) if n < 40 and rng.random() < 0.08 else None
        if clash and set(clash) & RESERVED:
            clash = None
        for j in range(n):
            ty = rng.choice(types)
            nm = rng.choice(TRICKY) if rng.random() < tricky else "%s%d" % (rng.choice(["a", "b", "v", "attr_", "x-"]), j)
            if clash:
                nm = clash[j]
            elif near:
                nm = "a" * (j + 1) if near == "run" else "n" * 70 + str(j) if near == "long" else "q%s" % bin(j)[2:]
            while nm in names:
                nm += "_%d" % j
            names.add(nm)
            self.attrs.append(self.attr(nm, ty, rng.random() < und, wide, capped, small))
        if rng.random() < special:
            self.add_special(rng.sample(["seg", "fc", "geo", "seg2"], rng.randint(1, 3)), und)
        if rng.random() < 0.5:
            rng.shuffle(self.attrs)

    def attr(self, nm, ty, und, wide=0.3, capped=0.3, small=False):
        rng = self.rng
        a = Attr(nm, ty, und)
        big = ty in ("i", "il", "s", "sl", "ie") and not small and rng.random() < self.big
        if big and ty in ("i", "il"):
            n = rng.choice([12, 30, 60, 120])
            step = rng.choice([1, 1, 2, 3, 7, 1 << 20, 1 << 33, 1 << 55])
            at = rng.choice([0, 0, -n // 2, -n, 5]) * step
            a.pool = [at + k * step for k in range(n)]
            if step > 1 and rng.random() < 0.5:
                # clusters
                a.pool = sorted({max(-BIG, min(BIG, x + rng.choice([0, 0, 1, -1, 2]))) for x in a.pool})
            if rng.random() < 0.6:
                a.lo, a.hi = a.pool[0] - rng.choice([0, 1, 1000]), a.pool[-1] + rng.choice([0, 1, 1000])
        elif big and ty in ("s", "sl"):
            a.pool = words(rng, rng.choice([12, 30, 60]), rng.choice(["numbered", "numbered", "clash", "odd"]))
            a.count = len(a.pool) + rng.choice([0, 0, 1, 5, 2000]) if rng.random() < capped else None
        elif big and ty == "ie":
            a.pool = rng.sample(range(-40, 300), rng.choice([12, 30, 60]))
            a.count = len(a.pool) + rng.choice([0, 0, 1, 5]) if rng.random() < capped else None
        elif ty in ("i", "il"):
            r = rng.random()
            if r < wide:
                k = rng.random()
                if k < 0.4:
                    a.lo, a.hi = None, None
                    base = rng.choice([0, 0, 5, 1 << 31, -(1 << 31), 1 << 40, 1 << 53, -(1 << 53) - 1, BIG - 50, -BIG + 50])
                elif k < 0.7:
                    a.lo, a.hi = sorted([rng.randint(-10 ** 6, 10 ** 6), rng.randint(-10 ** 6, 10 ** 6)])
                    base = rng.randint(a.lo, a.hi)
                elif k < 0.85:
                    base = rng.choice([1 << 31, -(1 << 31), 1 << 40, 1 << 53, BIG - 50, -BIG + 50])
                    a.lo, a.hi = base - rng.randint(0, 40), base + rng.randint(0, 40)
                else:
                    a.lo, a.hi = -BIG, BIG
                    base = rng.choice([0, BIG - 50, -BIG + 50])
                a.pool = [base + d for d in rng.sample(range(-6, 7), 6)]
                if rng.random() < 0.2:
                    a.pool += [rng.choice([BIG, -BIG, 1 << 32, (1 << 31) - 1, 0])]
            else:
                w = rng.choice([0, 1, 2, 3, 7, 10, 50, 100, 999, 1000] if not small else [2, 5, 9, 20])
                a.lo = rng.choice([0, 0, 1, -w // 2, -w - 3, -w])
                if not small and rng.random() < 0.2:
                    # a narrow range around the ends of smaller number types
                    a.lo = rng.choice([1, -1, 1]) * rng.choice([1 << 31, 1 << 31, 1 << 32, 1 << 53, 1 << 15, 1 << 16, 128, 256]) \
                        - rng.choice([0, w // 2, w // 2, w, w // 3, w // 4])
                a.hi = a.lo + w
                mid = (a.lo + a.hi) // 2
                c = {a.lo, a.hi, mid, mid + 1, mid - 1} | {rng.randint(a.lo, a.hi) for _ in range(4)}
                a.pool = [x for x in c if a.lo <= x <= a.hi]
            a.pool.sort()
        elif ty == "f":
            r = rng.random()
            if r < wide:
                if rng.random() < 0.6:
                    base = Fraction(rng.choice([0, 10, -10, 1000000, -123456, 3000000000, -3000000000, (1 << 32) + 5, 1 << 40]))
                else:
                    m = rng.choice([1, 1, 1, 1000, 10 ** 5, 10 ** 8])
                    a.lo, a.hi = q64(rng, -2000 * m, rng.choice([-1, -1, -1000 * m])), q64(rng, 0, 3000 * m)
                    base = q64(rng, a.lo, a.hi)
            else:
                w = rng.choice([Fraction(1, 64), Fraction(1, 2), 1, 2, 10, 100, 999])
                a.lo = rng.choice([Fraction(0), Fraction(-w, 2).limit_denominator(64) if w != Fraction(1, 64) else Fraction(0),
                                   -w - 1, Fraction(5)])
                if not small and rng.random() < 0.15:
                    a.lo = rng.choice([1, -1]) * rng.choice([1 << 31, 1 << 32, 1 << 24, 1 << 16]) - rng.choice([0, w // 2, w])
                a.lo = Fraction(int(a.lo * 64), 64)
                a.hi = a.lo + w
                base = None
            if base is None:
                mid = Fraction(int((a.lo + a.hi) * 32), 64)
                c = {a.lo, a.hi, mid, Fraction(int(a.lo) + 1), Fraction(int(a.hi))} | {q64(rng, a.lo, a.hi) for _ in range(4)}
                a.pool = sorted(x for x in c if a.lo <= x <= a.hi)
            else:
                a.pool = sorted({base, base + 1, base - 1, base + Fraction(1, 2), base + Fraction(1, 64),
                                 base + (Fraction(123, 1000) if abs(base) < 10 ** 8 else Fraction(3, 4))})
                if a.lo is not None:
                    a.pool = [x for x in a.pool if a.lo <= x <= a.hi]
        elif ty in ("s", "sl"):
            a.pool = words(rng, rng.randint(2, 6))
            a.count = len(a.pool) + rng.choice([0, 0, 1, 5, 2000]) if rng.random() < capped else None
        elif ty == "ie":
            a.pool = rng.sample([0, 1, 2, 3, 10, 77, 4095, 4096, 10 ** 9, -5, 1 << 40], rng.randint(2, 6))
            a.count = len(a.pool) + rng.choice([0, 0, 1, 5]) if rng.random() < capped else None
        return a

    def add_special(self, kinds, und=1.0):
        rng = self.rng
        have = {a.name for a in self.attrs}

        def put(a):
            if a.name not in have:
                have.add(a.name)
                self.attrs.append(a)
        base = rng.choice([1000, 100, 1700000000, 86400])
        u = lambda: rng.random() < und
        if "seg" in kinds or "seg2" in kinds or "fc" in kinds:
            a = Attr(NOW, "i", u(), 0, rng.choice([2000, 4000000000]), None, [])
            if rng.random() < 0.3:
                a.lo = a.hi = None
            a.pool = [base, base + 1, base + 50]
            if a.hi is not None and a.hi < base + 50:
                a.hi = 4000000000
            put(a)
        if "seg" in kinds:
            put(Attr(SEG, "seg", u(), pool=[1, 2, 3, 10, 1 << 33]))
        if "seg2" in kinds:
            put(Attr(rng.choice(["segs_b", "other-segs"]), "seg", u(), pool=[1, 2, 5]))
        if "fc" in kinds:
            put(Attr(CAPS, "fc", u()))
        if "geo" in kinds:
            put(Attr(LAT, "f", u(), rng.choice([None, Fraction(-90)]), None, None, []))
            put(Attr(LON, "f", u(), rng.choice([None, Fraction(-180)]), None, None, []))
            for a in self.attrs:
                if a.name in (LAT, LON):
                    if a.lo is not None:
                        a.hi = -a.lo
                    a.pool = [Fraction(10), Fraction(21, 2), Fraction(45)]

    def declare(self, s, t, cap=None, part=0, attrs=None):
        s.tree(t, cap, part)
        for a in attrs or self.attrs:
            s.var(t, a.ty, a.name, a.und, a.lo, a.hi, a.count)

    def by(self, name):
        for a in self.attrs:
            if a.name == name:
                return a
        return None


# ---------------------------------------------------------------------------
# expression text

class Style:
    """spelling choices"""

    def __init__(self, rng, wild=None):
        self.rng = rng
        self.wild = rng.random() < 0.3 if wild is None else wild

    def sp(self):
        if not self.wild:
            return " "
        return self.rng.choice([" ", " ", "  ", "\t", "\n", " \n\t "])

    def osp(self):
        """blank that may be left out"""
        if not self.wild:
            return self.rng.choice(["", " "]) if self.rng.random() < 0.3 else " "
        return self.rng.choice(["", "", " ", "\n"])

    def name(self, n):
        if self.wild and self.rng.random() < 0.3:
            return "".join(c.upper() if self.rng.random() < 0.5 else c for c in n)
        return n

    def string(self, s):
        qs = [q for q in "'\"" if q not in s]
        return "%s%s%s" % ((q := self.rng.choice(qs) if qs else "'"), s, q)

    def int(self, x):
        r = self.rng
        if x < 0:
            return "-" + (r.choice(["", " "]) if self.wild else "") + str(-x)
        return ("0" * r.randint(0, 2) if self.wild and r.random() < 0.1 else "") + str(x)

    def flt(self, x):
        n = int(abs(x) * 1000000)
        t = "%d.%06d" % (n // 1000000, n % 1000000)
        if self.rng.random() < 0.7:
            t = t.rstrip("0")
            if t.endswith(".") and self.rng.random() < 0.7:
                t += "0"
        return ("-" if x < 0 else "") + t

    def num(self, x):
        """a number for a fractional attribute"""
        x = Fraction(x)
        if x.denominator == 1 and self.rng.random() < 0.5:
            return self.int(int(x))
        return self.flt(x)


# lengths of long lists
LONG = [5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 40, 60]


class ExprGen:
    def __init__(self, rng, world, style=None, depth=2, nots=0.2, lits=0.03, dup=0.15, nulls=0.12, outside=0.0, only=None):
        self.rng, self.w, self.st = rng, world, style or Style(rng)
        self.depth, self.nots, self.lits, self.dup, self.nulls, self.outside = depth, nots, lits, dup, nulls, outside
        self.only = only
        self.memo = []          # sub-expression trees used before

    # trees: ("leaf", text) | ("not", a) | ("and"/"or", a, b)
    def val(self, a):
        rng = self.rng
        if a.ty in ("i", "il"):
            v = rng.choice(a.pool)
            if rng.random() < 0.25:
                v += rng.choice([-1, 1, 2, -2])
                if a.lo is not None:
                    v = max(a.lo, min(a.hi, v))
                v = max(-BIG, min(BIG, v))
            if rng.random() < self.outside:
                v = max(-BIG, min(BIG, v + rng.choice([-1000, 1000, 5, -5])))
            return v
        if a.ty == "f":
            v = rng.choice(a.pool)
            if rng.random() < 0.15:
                v += rng.choice([Fraction(1, 64), -Fraction(1, 64), Fraction(1), -Fraction(1)])
                if a.lo is not None:
                    v = max(a.lo, min(a.hi, v))
            return v
        return rng.choice(a.pool)

    def ilist(self, a, n=None):
        rng = self.rng
        n = n or rng.choice(LONG if len(a.pool) > 10 and rng.random() < 0.6 else [1, 1, 2, 2, 3, 4, 6])
        if len(a.pool) > n > 4 and rng.random() < 0.4:
            i = rng.randrange(len(a.pool) - n)
            out = list(a.pool[i:i + n])
            rng.shuffle(out)
            return out
        return [self.val(a) for _ in range(n)]

    def lst(self, a):
        st, rng = self.st, self.rng
        vs = self.ilist(a)
        ren = [st.string(v) if isinstance(v, str) else st.int(v) for v in vs]
        return "(" + (st.osp() if st.wild else "") + ("," + st.osp()).join(ren) + (st.osp() if st.wild else "") + ")"

    def leaf(self, a=None):
        rng, st = self.rng, self.st
        usable = [x for x in self.w.attrs if (self.only is None or x.name in self.only)]
        a = a or rng.choice(usable)
        nm = st.name(a.name)
        if rng.random() < self.nulls and a.ty not in ("seg", "fc"):
            k = rng.random()
            if a.ty in ("il", "sl") and (k < 0.4 or not a.und):
                return "%s%sis empty" % (nm, st.sp())
            if a.und:
                return "%s%sis %snull" % (nm, st.sp(), rng.choice(["", "not "]))
        if a.name in (LAT, LON) and self.w.by(LAT) and self.w.by(LON) and rng.random() < 0.7:
            return self.geo()
        if a.ty == "b":
            return nm
        if a.ty in ("i", "f") and rng.random() < 0.6:
            op = rng.choice(["<", "<=", ">", ">="])
            c = st.int(self.val(a)) if a.ty == "i" else st.num(self.val(a))
            if rng.random() < 0.2:
                return "%s%s%s%s%s" % (c, st.osp(), op, st.osp(), nm)
            return "%s%s%s%s%s" % (nm, st.osp() or (" " if False else ""), op, st.osp(), c)
        if a.ty in ("i", "f", "ie") and (a.ty != "i" or rng.random() < 0.5):
            op = rng.choice(["=", "<>"])
            c = st.num(self.val(a)) if a.ty == "f" else st.int(self.val(a))
            if rng.random() < 0.2:
                return "%s%s%s%s%s" % (c, st.osp(), op, st.osp(), nm)
            return "%s%s%s%s%s" % (nm, st.osp(), op, st.osp(), c)
        if a.ty == "i":
            return "%s%s%s%s%s" % (nm, st.sp(), rng.choice(["in", "in", "not in"]), st.osp(), self.lst(a))
        if a.ty == "s":
            k = rng.random()
            if k < 0.45:
                op = rng.choice(["=", "=", "<>"])
                c = st.string(self.val(a))
                if rng.random() < 0.2:
                    return "%s%s%s%s%s" % (c, st.osp(), op, st.osp(), nm)
                return "%s%s%s%s%s" % (nm, st.osp(), op, st.osp(), c)
            if k < 0.85:
                return "%s%s%s%s%s" % (nm, st.sp(), rng.choice(["in", "in", "not in"]), st.osp(), self.lst(a))
            return self.pat(a)
        if a.ty in ("il", "sl"):
            if rng.random() < 0.3:
                v = self.val(a)
                return "%s%s%s%s%s" % (st.string(v) if a.ty == "sl" else st.int(v), st.osp() if a.ty == "sl" else st.sp(),
                                       rng.choice(["in", "in", "not in"]), st.sp(), nm)
            return "%s%s%s%s%s" % (nm, st.sp(), rng.choice(["one of", "none of", "all of"]), st.osp(), self.lst(a))
        if a.ty == "seg":
            if self.w.by(NOW) is None:
                return "true"
            f = rng.choice(["segment_within", "segment_before"])
            named = a.name != SEG or rng.random() < 0.3
            return "%s(%s%d, %d)" % (f, nm + ", " if named else "", rng.choice(a.pool), rng.choice([0, 1, 10, 20, 100, 256, 4294967306]))
        if a.ty == "fc":
            if self.w.by(NOW) is None:
                return "true"
            k = rng.choice(KINDS) + rng.choice(["", "", ":ip"])
            return "within_frequency_cap('%s', '%s', %d, %d)" % (k, rng.choice(["ns", "", "other"]), rng.choice([0, 1, 2, 3, 100, 256, 4294967296 + 3]),
                                                                rng.choice([0, 0, 1, 10, 50, 100, 65546, 4294967296, 4294967306]))
        raise ValueError(a.ty)

    def pat(self, a):
        rng = self.rng
        v = rng.choice(a.pool)
        i = rng.randint(0, len(v))
        j = rng.randint(i, len(v))
        p = v[i:j] if rng.random() < 0.7 else v + rng.choice(["", "a", "b"])
        return "%s(%s, %s)" % (rng.choice(["contains", "starts_with", "ends_with"]), self.st.name(a.name), self.st.string(p))

    def geo(self):
        rng = self.rng
        if rng.random() < 0.5:
            return "geo_within_radius(%d, %d, %d)" % (rng.randint(-89, 89), rng.randint(-179, 179), rng.choice([1, 100, 1000, 8000]))
        a, b = self.w.by(LAT), self.w.by(LON)
        return "geo_within_radius(%s, %s, %s)" % tuple(
            "%s%d.%d" % ("-" if x < 0 else "", abs(int(x)), rng.choice([0, 5, 25])) for x in
            (rng.choice(a.pool), rng.choice(b.pool), rng.choice([1, 60, 150, 1000])))

    def tree(self, depth=None):
        rng = self.rng
        d = self.depth if depth is None else depth
        if self.memo and rng.random() < self.dup:
            return rng.choice(self.memo)
        r = rng.random()
        if d >= 2 and rng.random() < 0.03:
            # a long chain, grouped to one side
            op, side = rng.choice(["and", "or", "mix"]), rng.random()
            t = ("leaf", self.leaf())
            for _ in range(rng.choice([4, 8, 16, 30])):
                o = rng.choice(["and", "or"]) if op == "mix" else op
                x = ("leaf", self.leaf())
                t = (o, t, x) if rng.random() < side else (o, x, t)
                if rng.random() < 0.05:
                    t = ("not", t)
            return t
        if d == 0 or r < 0.25:
            t = ("leaf", rng.choice(["true", "false"])) if rng.random() < self.lits else ("leaf", self.leaf())
        elif r < 0.25 + self.nots:
            t = ("not", self.tree(d - 1))
        else:
            t = (rng.choice(["and", "or"]), self.tree(d - 1), self.tree(d - 1))
        if rng.random() < 0.5:
            self.memo.append(t)
            if len(self.memo) > 12:
                self.memo.pop(0)
        return t

    def render(self, t, lvl=0):
        """lvl: binding strength required by the context (0 or, 1 and, 2 not)"""
        st, rng = self.st, self.rng
        if t[0] == "leaf":
            s, own = t[1], 3
        elif t[0] == "not":
            s, own = "not" + st.sp() + self.render(t[1], 2), 2
            if s.startswith("not in") or s.startswith("not\tin"):
                pass
        else:
            own = 1 if t[0] == "and" else 0
            if st.wild and rng.random() < 0.5:
                op = st.sp() + {"and": "&&", "or": "||"}[t[0]] + st.osp()
            else:
                op = " " + t[0] + st.sp()
            s = self.render(t[1], own) + op + self.render(t[2], own + 1)
        if own < lvl or rng.random() < 0.07:
            return "(" + (st.osp() if st.wild else "") + s + ")"
        return s

    def text(self, depth=None):
        return self.render(self.tree(depth))


# ---------------------------------------------------------------------------
# events

class EventGen:
    def __init__(self, rng, world, exprs=None):
        self.rng, self.w = rng, world

    def value(self, a, vals=None):
        rng = self.rng
        if a.ty == "b":
            return rng.random() < 0.5
        if a.ty == "i":
            return self.int(a)
        if a.ty == "f":
            v = rng.choice(a.pool)
            r = rng.random()
            if a.name == LAT:
                return q64(rng, 8, 13) if r < 0.6 else q64(rng, -89, 89)
            if a.name == LON:
                return q64(rng, 8, 13) if r < 0.6 else q64(rng, -179, 179)
            if r < 0.3:
                v += rng.choice([Fraction(1, 64), -Fraction(1, 64), Fraction(1, 2), Fraction(1), -Fraction(1)])
            elif r < 0.4 and a.lo is not None:
                v = rng.choice([a.lo - Fraction(1, 64), a.hi + Fraction(1, 64), a.lo - 100, a.hi + 100])
            return v
        if a.ty == "s":
            r = rng.random()
            if r < 0.85:
                return rng.choice(a.pool)
            return rng.choice(["unseen", "", "zz", rng.choice(a.pool) + "x"])
        if a.ty == "ie":
            return rng.choice(a.pool) if rng.random() < 0.85 else rng.choice([123456, -77, 9])
        if a.ty == "il":
            return self.run(a, self.int)
        if a.ty == "sl":
            return self.run(a, lambda a: rng.choice(a.pool) if rng.random() < 0.85 else rng.choice(["unseen", "zz"]))
        if a.ty == "seg":
            n = rng.choice([0, 1, 2, 3])
            ids = sorted(rng.sample(a.pool + [7], min(n, len(a.pool))))
            return [(i, self.stamp(rng.choice([0, 1, 10, 20, 100]))) for i in ids]
        if a.ty == "fc":
            return [(rng.choice(KINDS) + rng.choice(["", "", ":ip"]), rng.choice([10, 20, 30]), rng.choice(["ns", "", "other"]),
                     rng.choice([0, 1, 2, 3, 100]), self.stamp(rng.choice([0, 1, 10, 50, 100])))
                    for _ in range(rng.choice([0, 1, 2, 4, 8]))]
        raise ValueError(a.ty)

    def run(self, a, f):
        """a list of values"""
        rng = self.rng
        n = rng.choice(LONG if len(a.pool) > 10 and rng.random() < 0.6 else [0, 1, 1, 2, 3, 5])
        if len(a.pool) > n > 4 and rng.random() < 0.4:
            i = rng.randrange(len(a.pool) - n)
            out = list(a.pool[i:i + n])
            if rng.random() < 0.5:
                rng.shuffle(out)
            return out
        return [f(a) for _ in range(n)]

    def int(self, a):
        rng = self.rng
        v = rng.choice(a.pool)
        r = rng.random()
        if r < 0.3:
            v += rng.choice([-1, 1])
        elif r < 0.4 and a.lo is not None:
            v = rng.choice([a.lo - 1, a.hi + 1, a.lo - 1000, a.hi + 1000])
        return max(-BIG, min(BIG, v))

    def stamp(self, age):
        """microsecond timestamp around now - age"""
        now = self.now if self.now is not None else 1000
        return max(0, (now - age) * 1000000 + self.rng.choice([0, 0, -1, 1, 500000, -1000000, 1000000, 999999]))

    def values(self, p=None, required=True):
        """attribute name -> value"""
        rng = self.rng
        p = p if p is not None else rng.choice([0.15, 0.5, 0.8, 1.0])
        out = {}
        na = self.w.by(NOW)
        self.now = None
        if na is not None and na.ty != "i":
            na = None
        if na is not None:
            self.now = max(0, self.value(na))
        for a in self.w.attrs:
            if (not a.und and required) or rng.random() < p:
                out[a.name] = self.now if a is na else self.value(a)
        return out

    def timed(self, v):
        """constructed cap entries may come without a timestamp"""
        return v


def ev_text(rng, world, vals, wild=None, nulls=0.1, shuffle=True, extra_dup=False):
    """event text"""
    st = Style(rng, wild)
    items = []
    names = list(vals)
    for a in world.attrs:
        if a.name not in vals and rng.random() < nulls:
            names.append(a.name)
    if shuffle:
        rng.shuffle(names)

    def i(x):
        return ("-" + str(-x)) if x < 0 else str(x)
    for nm in names:
        a = world.by(nm)
        if nm not in vals:
            t = "null"
        else:
            v = vals[nm]
            if a.ty == "b":
                t = "true" if v else "false"
            elif a.ty in ("i", "ie"):
                t = i(v)
            elif a.ty == "f":
                t = i(int(v)) if v.denominator == 1 and rng.random() < 0.5 else st.flt(v)
            elif a.ty == "s":
                t = st.string(v)
            elif a.ty == "il":
                t = "[" + ("," + st.osp()).join(i(x) for x in v) + "]"
            elif a.ty == "sl":
                t = "[" + ("," + st.osp()).join(st.string(x) for x in v) + "]"
            elif a.ty == "seg":
                t = "[" + ", ".join("[%d,%s%d]" % (x, st.osp(), y) for x, y in v) + "]"
            elif a.ty == "fc":
                t = "[" + ", ".join(
                    ("[[\"%s\", %d, \"%s\"], %d, %d]" if rng.random() < 0.5 else "[\"%s\", %d, \"%s\", %d, %d]") %
                    (k, d, ns, c, ts if ts is not None else 0) for k, d, ns, c, ts in v) + "]"
        items.append("%s:%s%s" % (st.string(st.name(nm)), st.osp(), t))
    return "{" + (st.osp() if st.wild else "") + ("," + st.osp()).join(items) + (st.osp() if st.wild else "") + "}"


def ev_fields(rng, world, vals, shuffle=True, attrs=None):
    """fields of a constructed event"""
    out = []
    for j, a in enumerate(attrs or world.attrs):
        if a.name in vals:
            v = vals[a.name]
            ty = a.ty
            if ty == "ie":
                ty = "i"
            if ty == "f" and v.denominator == 1 and rng.random() < 0.3:
                ty, v = "i", int(v)
            out.append((j, a.name, ty, v))
    if shuffle:
        rng.shuffle(out)
    return out


CONSTS = [("advertiser_id", 10), ("campaign_id", 20), ("campaign_group_id", 30), ("product_id", 10), ("flight_id", 20)]
