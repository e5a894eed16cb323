"""Generates the recording programs of a property: which calls on which types.

gen(pid, tier, seed) -> list of C++ statements (jobs). What is called is enumerated here; contents
are chosen at run time by the harness; what is right is decided by the specification.
"""
import random
from itertools import product

import hist

SMALL = list(range(1, 21)) + [24, 31, 32, 33, 40, 47, 48, 49, 55, 56, 57, 62, 63, 64]
BIG = [65, 66, 72, 95, 96, 97, 100, 127, 128, 129, 130, 160, 191, 192, 193, 200, 255, 256, 257, 300]
EDGE = [1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 192, 200]
MID = [5, 12, 20, 27, 40, 50, 61, 70, 80, 90, 110, 150, 180, 250]
ALLW = SMALL + BIG
S = ['false', 'true']


def T(k, w, s):
    return f"{'G' if k == 4 else 'B'}<{w}, {S[s]}>"


def TR(k, m, l, s):
    return f"{'GR' if k == 4 else 'BR'}<{m}, {l}, {S[s]}>"


class Gen:
    def __init__(self, tier, seed):
        self.r = random.Random(f"{seed}-{tier}")
        self.q = tier == 'quick'
        self.jobs = []

    def n(self, quick, thorough):
        return quick if self.q else thorough

    def add(self, s):
        self.jobs.append(s)

    def mixed(self, count):
        """pairs of different widths: boundary pairs, and random ones"""
        out = []
        for w in EDGE:
            for v in self.r.sample(EDGE, 3):
                if v != w:
                    out.append((w, v))
        while len(out) < count:
            w, v = self.r.choice(EDGE + MID), self.r.choice(EDGE + MID)
            if w != v:
                out.append((w, v))
        self.r.shuffle(out)
        return out[:count]

    def signs(self):
        return self.r.choice([(0, 0), (1, 1), (1, 1), (0, 1), (1, 0)])

    def arrays(self, f, kinds=(2, 4)):
        """a packed array is a vector: f gives jobs for an array type, and a vector type for its partner"""
        for (e, m, l) in ((1, 7, 0), (8, 3, 0), (5, 2, 4), (16, 4, 1), (33, 1, 0), (13, 9, 0), (64, 2, 0)):
            for k in kinds:
                s = self.r.choice((0, 1))
                w = e * (abs(m - l) + 1)
                v = w if k == 2 or self.r.random() < 0.5 else self.r.choice([x for x in EDGE if x != w])
                vs = self.r.choice((0, 1))
                for j in f(f"logic::packed_array<{T(k, e, s)}, {m}, {l}>", T(k, v, vs), w):
                    self.add(j)

    def ranged(self, f, kinds=(2, 4)):
        """vectors of any declared range: f gives jobs for a pair of types"""
        for w in (3, 8, 20, 32, 33, 64, 65, 100, 130):
            for k in kinds:
                def t(v, up):
                    o, s = self.r.choice([1, 3, 5, 29, 40, 64, -2, -7]), self.r.choice((0, 1))
                    return TR(k, o, o + v - 1, s) if up else TR(k, o + v - 1, o, s)
                v = self.r.choice([x for x in (1, 4, 9, 31, 34, 63, 66, 99, 128) if x != w])
                pl = T(k, self.r.choice((w, v)), self.r.choice((0, 1)))
                for x, y in ((t(w, 0), t(w, 0)), (t(w, 0), pl), (t(w, 1), t(w, 0)), (pl, t(w if pl == w else w, 0)),
                             (t(w, 0), t(v, 0)), (t(v, 1), t(w, 1)), (T(k, w, 0), t(v, 1))):
                    for j in f(x, y):
                        self.add(j)

    # -- every other width, once
    def sweep(self, top=320, wide=(384, 449, 512, 640, 1000)):
        for w in [w for w in range(1, top + 1) if w not in ALLW] + list(wide):
            for k in (self.r.choice((2, 4)),) if self.q else (2, 4):
                yield k, w, self.r.choice((0, 1))

    def sweep2(self, top=320, wide=(384, 449, 512, 640, 1000)):
        for (k, w, s) in self.sweep(top, wide):
            v = w if self.r.random() < 0.4 else self.r.randint(1, w) if self.r.random() < 0.5 else self.r.randint(1, 330)
            x, y = (k, w, s), (k, v, self.r.choice((s, s, 1 - s)))
            yield (x, y) if self.r.random() < 0.6 else (y, x)

    # -- pairs of types for binary families: (kind, width, sign) x 2
    def pairs(self, nmixed, mixed_kinds=True, widths=None):
        out = []
        for w in widths or ALLW:
            sg = [(0, 0), (1, 1), self.r.choice([(0, 1), (1, 0)])]
            for k in (2, 4):
                for (a, b) in sg:
                    out.append(((k, w, a), (k, w, b)))
        for (w, v) in self.mixed(nmixed):
            for k in (2, 4):
                a, b = self.signs()
                out.append(((k, w, a), (k, v, b)))
        if mixed_kinds:
            for w in widths or ALLW:
                # a four-state and a two-state value combine at equal widths only
                a, b = self.r.choice([(0, 0), (1, 1), (0, 1)])
                out.append(((4, w, a), (2, w, b)))
        return out

    def small_all(self, f, wmax4, wmax2):
        """exhaustive contents for small types"""
        for k, mx in ((4, wmax4), (2, wmax2)):
            for w in range(1, mx + 1):
                for v in range(1, mx + 1):
                    if w != v and (w > 2 and v > 2) and k == 4:
                        continue
                    for a in (0, 1):
                        for b in (0, 1):
                            self.add(f"{f}<{T(k, w, a)}, {T(k, v, b)}>();")
        if f != 'bitwise_all':      # kinds combine at equal widths only
            for w in range(1, wmax4 + 1):
                for (a, b) in ((0, 0), (1, 1), (0, 1)):
                    self.add(f"{f}<{T(4, w, a)}, {T(2, w, b)}>();")


def C01(g):
    n = g.n(4, 40)
    # (ascending vectors do not combine with vectors of the same width)
    up = lambda t: 'R<' in t and int(t[3:].split(',')[0]) < int(t.split(',')[1])
    g.ranged(lambda x, y: [] if up(x) or up(y) else [f"bitwise<{x}, {y}>({n});"])
    g.ranged(lambda x, y: [f"invert<{x}>({n * 4});", f"invert<{y}>({n * 2});"])
    for w in ALLW:          # one variable as both operands
        for k in (2, 4):
            g.add(f"same_bits<{T(k, w, g.r.choice((0, 1)))}>({g.n(3, 12)});")
    for (x, y) in g.pairs(g.n(60, 150), mixed_kinds=False):
        g.add(f"bitwise<{T(*x)}, {T(*y)}>({n});")
    for w in ALLW:
        for k in (2, 4):
            for s in (0, 1):
                g.add(f"invert<{T(k, w, s)}>({n * 2});")
    for (w, v) in g.mixed(g.n(20, 60)):
        t = max(w, v) + g.r.choice([0, 1, 7, 64])
        for k in (2, 4):
            a, b = g.signs()
            g.add(f"bitwise_to<{T(k, w, a)}, {T(k, v, b)}, {t}>({n});")
    g.small_all('bitwise_all', 2, 3 if g.q else 4)
    if not g.q:
        for a, b in ((0, 0), (1, 1), (0, 1)):
            g.add(f"bitwise_all<{T(4, 3, a)}, {T(4, 3, b)}>();")
    g.arrays(lambda A, V, w: [f"bitwise<{A}, {V}>({n});", f"invert<{A}>({n});"])
    for (x, y) in g.sweep2():
        g.add(f"bitwise<{T(*x)}, {T(*y)}>(2);")
        g.add(f"invert<{T(*x)}>(2);")


def C02(g):
    n = g.n(6, 40)
    g.ranged(lambda x, y: [f"reduce<{x}>(4);", f"reduce<{y}>(4);"])
    for w in ALLW:
        if w > 1:
            for k in (2, 4):
                g.add(f"reduce_pair<{T(k, w, g.r.choice((0, 1)))}>();")
    for w in ALLW:
        for k in (2, 4):
            for s in (0, 1):
                g.add(f"reduce<{T(k, w, s)}>({n});")
    for w in ([1, 8, 13, 31, 32, 33, 64, 65, 100, 129] if g.q else EDGE + MID):
        for k in (2, 4):
            g.add(f"reduce_walk<{T(k, w, g.r.choice((0, 1)))}>();")
    for (m, l) in ((7, 4), (0, 7), (3, 11), (70, 3), (2, 75), (66, 0), (0, 66), (10, 10)):
        for k in (2, 4):
            g.add(f"reduce<{TR(k, m, l, g.r.choice((0, 1)))}>({n});")
    for w in range(1, 5 if g.q else 7):
        for s in (0, 1):
            g.add(f"reduce_all<{T(4, w, s)}>();")
    for w in range(1, 8 if g.q else 10):
        for s in (0, 1):
            g.add(f"reduce_all<{T(2, w, s)}>();")
    g.arrays(lambda A, V, w: [f"reduce<{A}>({n});"])
    for x in g.sweep():
        g.add(f"reduce<{T(*x)}>(3);")


def C03(g):
    n = g.n(4, 30)
    g.ranged(lambda x, y: [f"arith<{x}, {y}>({n});", f"neg_only<{x}>({n});", f"neg_only<{y}>({n});"])
    for w in ALLW:          # one variable as both operands
        for k in (2, 4):
            g.add(f"same_arith<{T(k, w, g.r.choice((0, 1)))}>({g.n(3, 12)});")
    for (x, y) in g.pairs(g.n(60, 150)):
        g.add(f"arith<{T(*x)}, {T(*y)}>({n});")
    for w in ALLW:
        for k in (2, 4):
            for s in (0, 1):
                g.add(f"unary<{T(k, w, s)}>({n});")
    for (w, v) in g.mixed(g.n(20, 60)):
        t = max(w, v) + g.r.choice([0, 1, 7, 64])
        for k in (2, 4):
            a, b = g.signs()
            g.add(f"arith_to<{T(k, w, a)}, {T(k, v, b)}, {t}>({n});")
    g.small_all('arith_all', 2, 3 if g.q else 4)
    for w in range(1, 4):
        for s in (0, 1):
            g.add(f"unary_all<{T(4, w, s)}>();")
            g.add(f"unary_all<{T(2, w + 1, s)}>();")
    g.arrays(lambda A, V, w: [f"arith<{A}, {V}>({n});", f"neg_only<{A}>({n});"])
    for (x, y) in g.sweep2(wide=(384, 512)):
        g.add(f"arith<{T(*x)}, {T(*y)}>(2);")
        g.add(f"unary<{T(*x)}>(2);")


def C04(g):
    n = g.n(8, 40)
    g.ranged(lambda x, y: [f"divide<{x}, {y}>({n});"])
    for w in ALLW:          # one variable as both operands
        for k in (2, 4):
            g.add(f"same_div<{T(k, w, g.r.choice((0, 1)))}>({g.n(3, 12)});")
    for (x, y) in g.pairs(g.n(50, 150)):
        m = n if max(x[1], y[1]) <= 130 or not g.q else max(2, n // 2)
        g.add(f"divide<{T(*x)}, {T(*y)}>({m});")
    for (w, v) in g.mixed(g.n(15, 60)):
        t = max(w, v) + g.r.choice([0, 1, 7, 64])
        for k in (2, 4):
            a, b = g.signs()
            g.add(f"divide_to<{T(k, w, a)}, {T(k, v, b)}, {t}>({n});")
    g.small_all('divide_all', 2, 3 if g.q else 4)
    for k in (2,):
        for s in (0, 1):
            g.add(f"divide_all<{T(k, 5, s)}, {T(k, 5, s)}>();")
    g.arrays(lambda A, V, w: [f"divide<{A}, {V}>({n});"])
    for (x, y) in g.sweep2(wide=(384,)):
        g.add(f"divide<{T(*x)}, {T(*y)}>(2);")


def C05(g):
    n = g.n(5, 40)
    g.ranged(lambda x, y: [f"shift<{x}, {y}>({n});"])
    for w in ALLW:          # one variable as both operands
        for k in (2, 4):
            g.add(f"same_shift<{T(k, w, g.r.choice((0, 1)))}>({g.n(3, 12)});")
    for (x, y) in g.pairs(g.n(70, 200)):
        g.add(f"shift<{T(*x)}, {T(*y)}>({n});")
    for w in ([1, 7, 8, 16, 31, 32, 33, 63, 64, 65, 100, 128, 130] if g.q else EDGE + MID):
        for k in (2, 4):
            for s in (0, 1):
                v = g.r.choice([9, 10, 32, 64, 65, 100])
                g.add(f"shift_walk<{T(k, w, s)}, {T(k, v, g.r.choice((0, 1)))}>();")
    g.small_all('shift_all', 2, 3 if g.q else 4)
    g.arrays(lambda A, V, w: [f"shift<{A}, {V}>({n});"])
    for (x, y) in g.sweep2():
        g.add(f"shift<{T(*x)}, {T(*y)}>(2);")


def C06(g):
    n = g.n(4, 30)
    g.ranged(lambda x, y: [f"compare<{x}, {y}>({n});"])
    for w in ALLW:          # one variable as both operands
        for k in (2, 4):
            g.add(f"same_compare<{T(k, w, g.r.choice((0, 1)))}>({g.n(3, 12)});")
    for (x, y) in g.pairs(g.n(80, 200)):
        g.add(f"compare<{T(*x)}, {T(*y)}>({n});")
        if x[0] == 4 and y[0] == 2:      # and the other way round
            g.add(f"compare<{T(*y)}, {T(*x)}>({n});")
    for w in ([8, 31, 33, 64, 65, 100, 129] if g.q else EDGE + MID):
        for (a, b) in ((0, 0), (1, 1)):
            k = g.r.choice((2, 4))
            g.add(f"compare_walk<{T(k, w, a)}, {T(k, w, b)}>();")
            if not g.q:
                v = g.r.choice(EDGE)
                g.add(f"compare_walk<{T(k, w, a)}, {T(k, v, b)}>();")
    g.small_all('compare_all', 2, 3 if g.q else 4)
    g.arrays(lambda A, V, w: [f"compare<{A}, {V}>({n});"], (4,))
    for (x, y) in g.sweep2():
        g.add(f"compare<{T(*x)}, {T(*y)}>(2);")


def C07(g):
    n = g.n(5, 30)
    g.ranged(lambda x, y: [f"match<{x}, {y}>({n});"] if "true" not in x + y else [])
    for w in ALLW:          # one variable as both operands
        for k in (2, 4):
            g.add(f"same_match<{T(k, w, g.r.choice((0, 1)))}>({g.n(3, 12)});")
    for w in ALLW:
        for (a, b) in ((0, 0), (1, 1), (1, 0)):
            g.add(f"match<{T(4, w, a)}, {T(4, w, b)}>({n});")
        s = g.r.choice((0, 1))
        g.add(f"match<{T(2, w, s)}, {T(2, w, g.r.choice((0, 1)))}>({n});")
        g.add(f"match<{T(4, w, 0)}, {T(2, w, g.r.choice((0, 1)))}>({n});")
    for (w, v) in g.mixed(g.n(50, 150)):
        g.add(f"match<{T(4, w, 0)}, {T(4, v, 0)}>({n});")
        g.add(f"match<{T(2, w, 0)}, {T(2, v, 0)}>({n});")
    for w in ([1, 8, 33, 64, 65, 100, 129] if g.q else EDGE + MID):
        for k in (2, 4):
            g.add(f"match_walk<{T(k, w, 0)}, {T(k, w, 0)}>();")
            g.add(f"match_walk<{T(k, w, 1)}, {T(k, w, 1)}>();")
    for w in ([3, 8, 11, 32, 37, 64, 65, 100, 128] if g.q else EDGE + MID):
        for k in (2, 4):
            for s in (0, 1):
                g.add(f"match_computed<{T(k, w, s)}>({g.n(3, 15)});")
    for w in (1, 2) if g.q else (1, 2, 3):
        for s in (0, 1):
            g.add(f"match_all<{T(4, w, s)}, {T(4, w, s)}>();")
            g.add(f"match_all<{T(4, w, s)}, {T(2, w, s)}>();")
    g.arrays(lambda A, V, w: [f"match<{A}, {T(4, w, 0)}>({n});"] if "true" not in A else [], (4,))
    for (k, w, s) in g.sweep():
        g.add(f"match<{T(k, w, s)}, {T(k, w, g.r.choice((0, 1)))}>(3);")


def C08(g):
    n = g.n(10, 40)
    g.ranged(lambda x, y: [f"resign<{x}>(3);", f"assign<{x}, {y}>(4);", f"construct<{x}, {y}>(4);"])
    for w in ALLW:          # one variable as both operands
        for k in (2, 4):
            g.add(f"same_assign<{T(k, w, g.r.choice((0, 1)))}>({g.n(3, 12)});")
    for (w, v) in g.mixed(g.n(70, 200)):
        for k in (2, 4):
            for s in (0, 1):
                if v > w:
                    g.add(f"extend_<{T(k, w, s)}, {v}>({n});")
                g.add(f"assign<{T(k, v, g.r.choice((0, 1)))}, {T(k, w, s)}>({n});")
                if s:
                    g.add(f"construct<{T(k, v, g.r.choice((0, 1)))}, {T(k, w, s)}>({n});")
    for w in ALLW:
        for k in (2, 4):
            for s in (0, 1):
                g.add(f"resign<{T(k, w, s)}>({n});")
                g.add(f"assign<{T(k, w, 1 - s)}, {T(k, w, s)}>({n});")
                g.add(f"extend_<{T(k, w, s)}, {w}>({n});")
                if k == 4:
                    g.add(f"construct<{T(4, w, s)}, {T(2, w, s or g.r.choice((0, 1)))}>({n});")
                    if not s:
                        g.add(f"construct<{T(4, w, s)}, {T(4, w, 1 - s)}>({n});")
    for w in g.r.sample(ALLW, g.n(14, 40)) + [1, 8, 32, 33, 64, 65, 128]:
        for k in (2, 4):
            for s in (0, 1):
                g.add(f"fromints<{T(k, w, s)}>({g.n(2, 6)});")
    # the same width under another declared range
    for (m, l) in ((7, 4), (0, 7), (3, 11), (70, 3), (2, 75), (0, 66)):
        w = abs(m - l) + 1
        for s in (0, 1):
            g.add(f"construct<{T(4, w, s)}, {TR(4, m, l, 1)}>({n});")
            g.add(f"assign<{T(2, w, s)}, {TR(2, m, l, g.r.choice((0, 1)))}>({n});")
            g.add(f"resign<{TR(4, m, l, s)}>({n});")
            g.add(f"resign<{TR(2, m, l, s)}>({n});")
            g.add(f"extend_<{TR(4, m, l, s)}, {w + 5}>({n});")
            g.add(f"extend_<{TR(2, m, l, s)}, {w + 70}>({n});")
    g.arrays(lambda A, V, w: [f"resign<{A}>({n});", f"extend_<{A}, {w + g.r.choice([0, 1, 30, 64, 70])}>({n});", f"construct<{A}, {A}>({n});", f"array_ints<{A}>({n});"])
    for (x, y) in g.sweep2():
        g.add(f"assign<{T(*x)}, {T(*y)}>(2);")
        if x[1] < y[1]:
            x, y = y, x
        g.add(f"extend_<{T(*y)}, {x[1]}>(2);")
        g.add(f"resign<{T(*x)}>(2);")
    for (k, w, s) in g.sweep(wide=()):
        if w % 4 == 1 or not g.q:
            g.add(f"fromints<{T(k, w, s)}>(1);")


RANGES = [(0, 0), (3, 3), (7, 0), (0, 7), (7, 4), (4, 7), (15, 8), (31, 0), (0, 31), (33, 1), (1, 33),
          (63, 0), (0, 63), (64, 0), (0, 64), (65, 2), (2, 65), (70, 5), (5, 70), (127, 0), (0, 127),
          (128, 0), (140, 10), (10, 140), (199, 0), (0, 199), (1000, 990), (990, 1000), (-1, -8),
          (-8, -1), (3, -4), (-4, 3), (-1, -70), (36, -35), (-35, 36)]


def C09(g):
    for (m, l) in RANGES:
        for k in (2, 4):
            s = g.r.choice((0, 1))
            g.add(f"bits_walk<{TR(k, m, l, s)}>();")
            if not g.q:
                g.add(f"bits_walk<{TR(k, m, l, 1 - s)}>();")
            lo, hi = min(m, l), max(m, l)
            idx = sorted(set([lo, hi, (lo + hi) // 2] + [i for i in (31, 32, 63, 64, 127) if lo <= i <= hi]))
            for i in idx:
                if i >= 0 and (m >= l and l >= 0 or m < l):
                    g.add(f"bits_const<{TR(k, m, l, g.r.choice((0, 1)))}, {i}>({g.n(2, 6)});")
        for _ in range(g.n(2, 6)):
            iw = g.r.choice([3, 4, 7, 8, 9, 16, 31, 32, 33, 63, 64, 65, 100])
            g.add(f"bits_obj<{TR(4, m, l, g.r.choice((0, 1)))}, {T(2, iw, g.r.choice((0, 1)))}>({g.n(6, 25)});")
    for w in ALLW + [192, 257]:      # constant indices anywhere
        for k in (2, 4):
            idx = {g.r.randrange(w), g.r.randrange(w)} | {i for i in (15, 31, 32, 63, 64, 127, 128, 191, 192) if i < w and (w > 20 or g.r.random() < .3)}
            for i in sorted(idx):
                if g.r.random() < g.n(60, 100) / 100:
                    g.add(f"bits_const<{T(k, w, g.r.choice((0, 1)))}, {i}>({g.n(1, 4)});")
    for w in ALLW:
        for k in (2, 4):
            for s in (0, 1):
                g.add(f"bits_some<{T(k, w, s)}>({g.n(3, 20)});")
    for x in g.sweep():
        g.add(f"bits_some<{T(*x)}>(2);")


EDGES = [1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 191, 192, 193, 255, 256]


def edge_parts(g, chance):
    """(width, hi, lo) of parts whose size is at or next to a word, anywhere in a larger vector"""
    for z in EDGES:
        for low in {0, 1, 3, 31, 32, 63, 64, 65, 128, g.r.randrange(130)}:
            if g.r.random() < chance:
                w = low + z + g.r.choice([0, 1, 2, 7, 31, 63, 64, 65])
                yield w, low + z - 1, low


def C10(g):
    n = g.n(14, 60)
    for w in EDGE + MID:
        for k in (2, 4):
            spans = {(w - 1, 0), (w - 1, w - 1), (0, 0)}
            for _ in range(g.n(3, 8)):
                a, b = g.r.randrange(w), g.r.randrange(w)
                spans.add((max(a, b), min(a, b)))
            for c in (31, 32, 63, 64, 127, 128):
                if c < w and g.r.random() < 0.5:
                    a = g.r.randrange(c + 1)
                    spans.add((c, a))
                    spans.add((w - 1, c))
            for (a, b) in sorted(spans):
                g.add(f"slice_const<{T(k, w, g.r.choice((0, 1)))}, {a}, {b}>({n});")
            for size in sorted({1, w, g.r.randint(1, w), g.r.randint(1, w)} | {x for x in (32, 64, 65) if x <= w}):
                s = g.r.choice((0, 1))
                g.add(f"slice_run<{T(k, w, s)}, {size}>({n});")
                iw = g.r.choice([8, 9, 16, 32, 64])
                g.add(f"slice_base<{T(k, w, g.r.choice((0, 1)))}, {size}, {T(g.r.choice((2, 4)), iw, g.r.choice((0, 1)))}>({n});")
    for w, size in ((9, 3), (33, 8), (64, 5), (65, 2), (100, 64), (130, 65)) if g.q else \
            tuple((w, z) for w in EDGE + MID for z in (1, 5, 33, 64, 65) if z <= w):
        for k in (2, 4):
            g.add(f"slice_run_all<{T(k, w, g.r.choice((0, 1)))}, {size}>();")
    for w, a, b in edge_parts(g, g.n(40, 100) / 100):
        k = g.r.choice((2, 4))
        g.add(f"slice_const<{T(k, w, g.r.choice((0, 1)))}, {a}, {b}>(3);")
        g.add(f"slice_run<{T(k, w, g.r.choice((0, 1)))}, {a - b + 1}>(3);")
    for (k, w, s) in g.sweep(wide=(384, 512)):
        a, b = sorted((g.r.randrange(w), g.r.randrange(w)))
        g.add(f"slice_const<{T(k, w, s)}, {b}, {a}>(2);")
        g.add(f"slice_run<{T(k, w, s)}, {g.r.randint(1, w)}>(3);")
        g.add(f"slice_base<{T(k, w, s)}, {g.r.randint(1, w)}, {T(g.r.choice((2, 4)), g.r.choice([9, 10, 16, 32]), g.r.choice((0, 1)))}>(3);")


def C11(g):
    n = g.n(12, 50)
    for w in ALLW:          # a variable written into a part of itself
        for k in (2, 4):
            b, a = sorted((g.r.randrange(w), g.r.randrange(w)))
            g.add(f"same_update<{T(k, w, g.r.choice((0, 1)))}, {a}, {b}>({g.n(3, 12)});")
    for w in EDGE + MID:
        for k in (2, 4):
            spans = {(w - 1, 0), (w - 1, w - 1), (0, 0)}
            for _ in range(g.n(3, 8)):
                a, b = g.r.randrange(w), g.r.randrange(w)
                spans.add((max(a, b), min(a, b)))
            for (a, b) in sorted(spans):
                z = a - b + 1
                for v in sorted({z, g.r.randint(1, z), z + g.r.choice([1, 5, 64])}):
                    f = g.r.choice(['update_const', 'update_const', 'update_ref'])
                    g.add(f"{f}<{T(k, w, g.r.choice((0, 1)))}, {a}, {b}, {T(k, v, g.r.choice((0, 1)))}>({n});")
            for v in sorted({1, g.r.randint(1, w), min(w, 64), min(w, 65)}):
                part = g.r.choice([v, max(1, v - 1), min(w, v + g.r.choice([1, 3, 64]))])
                part = min(part, w)
                g.add(f"update_run<{T(k, w, g.r.choice((0, 1)))}, {T(k, v, g.r.choice((0, 1)))}>({part}, {n});")
                iw = g.r.choice([8, 9, 16, 32, 64])
                g.add(f"update_base<{T(k, w, g.r.choice((0, 1)))}, {T(k, v, g.r.choice((0, 1)))}, {part}, "
                      f"{T(g.r.choice((2, 4)), iw, g.r.choice((0, 1)))}>({n});")
    # ascending vectors and ascending operands, as wide as the part
    for (m, l) in ((0, 7), (0, 31), (0, 63), (0, 64), (0, 99), (0, 130)):
        w = l - m + 1
        for k in (2, 4):
            for _ in range(g.n(4, 10)):
                a, b = sorted((g.r.randrange(w), g.r.randrange(w)))
                z = b - a + 1
                op = g.r.choice([T(k, z, 0), TR(k, 0, z - 1, 0), TR(k, 0, z - 1, 1), TR(k, 5, 4 + z, 0), TR(k, 4 + z, 5, 0)])
                g.add(f"update_const<{TR(k, m, l, g.r.choice((0, 1)))}, {a}, {b}, {op}>({n});")
                g.add(f"update_run<{TR(k, m, l, g.r.choice((0, 1)))}, {op}>({z}, {n});")
    for w in (8, 32, 64, 65, 100, 130):
        for k in (2, 4):
            for _ in range(g.n(3, 8)):
                a, b = sorted((g.r.randrange(w), g.r.randrange(w)))
                z = b - a + 1
                op = g.r.choice([TR(k, 0, z - 1, 0), TR(k, 5, 4 + z, 0), TR(k, 4 + z, 5, 0)])
                g.add(f"update_const<{T(k, w, g.r.choice((0, 1)))}, {b}, {a}, {op}>({n});")
                g.add(f"update_run<{T(k, w, g.r.choice((0, 1)))}, {op}>({z}, {n});")
                # operands of any width and declared range
                v = g.r.choice([max(1, z - g.r.choice([1, 2, 32])), z + g.r.choice([1, 7, 33])])
                op = g.r.choice([TR(k, 0, v - 1, 0), TR(k, 3, 2 + v, g.r.choice((0, 1))), TR(k, 2 + v, 3, 1), TR(k, v - 3, -2, 0)])
                g.add(f"update_const<{T(k, w, g.r.choice((0, 1)))}, {b}, {a}, {op}>({n});")
                g.add(f"update_run<{T(k, w, g.r.choice((0, 1)))}, {op}>({z}, {n});")
    for w, a, b in edge_parts(g, g.n(40, 100) / 100):
        k = g.r.choice((2, 4))
        v = g.r.choice([a - b + 1] * 3 + [max(1, a - b), a - b + 2])
        g.add(f"update_const<{T(k, w, g.r.choice((0, 1)))}, {a}, {b}, {T(k, v, g.r.choice((0, 1)))}>(3);")
        g.add(f"update_run<{T(k, w, g.r.choice((0, 1)))}, {T(k, v, g.r.choice((0, 1)))}>({a - b + 1}, 3);")
    for w in [4, 8, 20, 33, 64, 65, 70, 100, 128, 130, 200]:
        for k in (2, 4):
            a, b = sorted((g.r.randrange(w), g.r.randrange(w)))
            v, u = g.r.choice([b - a + 1, g.r.randint(1, w)]), g.r.randint(1, w + 5)
            g.add(f"update_refs<{T(k, w, g.r.choice((0, 1)))}, {b}, {a}, {T(k, v, g.r.choice((0, 1)))}, {T(k, u, g.r.choice((0, 1)))}>({g.n(5, 20)});")
            if b > a and g.r.random() < .4:
                g.add(f"update_refs<{TR(k, 0, w - 1, 0)}, {a}, {b}, {T(k, b - a + 1, 0)}, {T(k, u, 0)}>({g.n(5, 20)});")
    for (k, w, s) in g.sweep(wide=(384, 512)):
        a, b = sorted((g.r.randrange(w), g.r.randrange(w)))
        g.add(f"update_const<{T(k, w, s)}, {b}, {a}, {T(k, g.r.choice([b - a + 1, g.r.randint(1, w)]), g.r.choice((0, 1)))}>(2);")
        g.add(f"update_run<{T(k, w, s)}, {T(k, g.r.randint(1, w), g.r.choice((0, 1)))}>({g.r.randint(1, w)}, 3);")


def split(g, total, parts):
    cuts = sorted(g.r.sample(range(1, total), parts - 1)) if parts > 1 else []
    cuts = [0] + cuts + [total]
    return [b - a for a, b in zip(cuts, cuts[1:])]


def C12(g):
    n = g.n(12, 50)
    g.ranged(lambda x, y: [f"concat_<{x}, {y}>(4);", f"concat_<{y}, {x}, {y}>(4);"])
    lists = [[32, 32], [33, 31], [31, 33], [1, 63], [63, 1], [64, 1], [1, 64], [64, 64], [32, 33], [65, 65],
             [100, 28], [128, 3], [1, 1], [40, 40, 40], [64, 64, 64], [1, 1, 1, 1], [8, 16, 32, 8], [63, 65]]
    for _ in range(g.n(36, 200)):
        total = g.r.choice([2, 3, 8, 17, 32, 33, 63, 64, 65, 66, 96, 127, 128, 129, 130, 190, 200, 257])
        lists.append(split(g, total, min(total, g.r.choice([2, 2, 3, 3, 4, 5]))))
    for parts in (6, 8):
        lists.append(split(g, g.r.choice([17, 32, 64, 65, 100, 130]), parts))
    for (parts, k) in product(range(3, 13), (2, 4)):      # many narrow parts
        ws = [g.r.randint(1, 2)] + [g.r.randint(1, 3) for _ in range(parts - 1)]
        l = ', '.join(T(k, w, g.r.choice((0, 1))) for w in ws)
        g.add(f"concat_<{l}>({n // 2});")
        g.add(f"unpack_<{T(k, sum(ws), g.r.choice((0, 1)))}, {l}>({n // 2});")
    for ws in lists:
        sg = [g.r.choice((0, 1)) for _ in ws]
        l4 = ', '.join(T(4, w, s) for w, s in zip(ws, sg))
        l2 = ', '.join(T(2, w, s) for w, s in zip(ws, sg))
        lm = ', '.join(T(4 if i == 0 else g.r.choice((2, 4)), w, s) for i, (w, s) in enumerate(zip(ws, sg)))
        total = sum(ws)
        g.add(f"concat_<{l4}>({n});")
        g.add(f"concat_<{l2}>({n});")
        g.add(f"concat_<{lm}>({n});")
        g.add(f"unpack_<{T(4, total, g.r.choice((0, 1)))}, {l4}>({n});")
        g.add(f"unpack_<{T(2, total, g.r.choice((0, 1)))}, {l2}>({n});")
        lm2 = ', '.join(T(g.r.choice((2, 4)), w, s) for w, s in zip(ws, sg))
        g.add(f"unpack_<{T(2, total, g.r.choice((0, 1)))}, {lm2}>({n});")
        g.add(f"roundtrip_<{l4}>({n});")
        g.add(f"roundtrip_<{l2}>({n});")
        if 1 < len(ws) < 5:
            for k in (2, 4):
                rest = ', '.join(T(k, w, s) for w, s in zip(ws[1:], sg[1:]))
                g.add(f"unpack_self<{T(k, total, sg[0])}, {rest}>(3);")
        # shorter and longer sources
        d = g.r.randint(1, max(1, ws[0] - 1)) if ws[0] > 1 else 0
        if d:
            g.add(f"unpack_<{T(4, total - d, g.r.choice((0, 1)))}, {l4}>({n});")
            g.add(f"unpack_<{T(2, total - d, g.r.choice((0, 1)))}, {l2}>({n});")
        e = g.r.choice([1, 3, 64])
        g.add(f"unpack_<{T(4, total + e, g.r.choice((0, 1)))}, {l4}>({n});")
        g.add(f"unpack_<{T(2, total + e, g.r.choice((0, 1)))}, {l2}>({n});")
    g.arrays(lambda A, V, w: [f"concat_<{A}, {V}>({n});", f"concat_<{A}, {V}, {V}>({n});"])
    for (k, w, s) in g.sweep(wide=(384, 512)):
        if w > 1:
            ws = split(g, w, min(w, g.r.choice([2, 2, 3, 4])))
            l = ', '.join(T(k, v, g.r.choice((0, 1))) for v in ws)
            g.add(f"{g.r.choice(['concat_', 'roundtrip_'])}<{l}>(2);")
            g.add(f"unpack_<{T(k, w, s)}, {l}>(2);")


def C14(g):
    n = g.n(25, 100)
    g.ranged(lambda x, y: [f"parse<{x}>(4);"])
    for w in ALLW:
        for k in (2, 4):
            g.add(f"parse<{T(k, w, g.r.choice((0, 1)))}>({n});")
    g.arrays(lambda A, V, w: [f"parse<{A}>({n});"])
    for x in g.sweep():
        g.add(f"parse<{T(*x)}>(6);")


def C15(g):
    n = g.n(6, 30)
    g.ranged(lambda x, y: [f"format<{x}>(3);", f"print_parse<{x}>(1);"])
    for w in ALLW:
        for k in (2, 4):
            for s in (0, 1):
                g.add(f"format<{T(k, w, s)}>({n});")
            g.add(f"format_chars<{T(k, w, g.r.choice((0, 1)))}>(2);")
            g.add(f"print_parse<{T(k, w, g.r.choice((0, 1)))}>({g.n(2, 10)});")
    for w in range(1, 4 if g.q else 5):
        for s in (0, 1):
            g.add(f"format_all<{T(4, w, s)}>();")
    for w in range(1, 6 if g.q else 8):
        for s in (0, 1):
            g.add(f"format_all<{T(2, w, s)}>();")
    g.arrays(lambda A, V, w: [f"format<{A}>({n});"])
    for x in g.sweep(wide=(384, 512)):
        g.add(f"format<{T(*x)}>(2);")
        g.add(f"print_parse<{T(*x)}>(1);")


def C16(g):
    arrays = [(8, 3, 0), (1, 7, 0), (1, 64, 0), (3, 4, 0), (7, 9, 0), (16, 3, 0), (32, 1, 0), (32, 2, 0),
              (33, 2, 1), (64, 1, 0), (64, 2, 0), (65, 2, 0), (5, 12, 3), (4, 20, 16), (13, 9, 0), (70, 4, 2),
              (1, 0, 0), (2, 31, 0), (9, 99, 90), (31, 4, 0), (63, 3, 0), (128, 2, 0),
              # ascending, negative and mixed bounds
              (8, 0, 3), (5, 3, 12), (33, 1, 2), (7, -1, -3), (4, 2, -3), (16, -2, 3), (65, -1, 1)]
    if not g.q:
        for _ in range(40):
            e = g.r.choice([1, 2, 3, 5, 8, 15, 16, 24, 31, 32, 33, 48, 63, 64, 65, 90])
            cnt = g.r.randint(1, max(1, min(12, 300 // e)))
            lo = g.r.choice([0, 0, 1, 3, 16, 100])
            b = (lo + cnt - 1, lo) if g.r.random() < 0.6 else (lo, lo + cnt - 1) if g.r.random() < 0.5 else (cnt // 2, cnt // 2 - cnt + 1)
            arrays.append((e, *b))
    for (e, m, l) in arrays:
        lo_, hi_ = min(m, l), max(m, l)
        for k in (2, 4):
            s = g.r.choice((0, 1))
            E = T(k, e, s)
            if e in (4, 8, 16, 33, 64) and g.r.random() < 0.6:      # an array of arrays
                E = f"logic::packed_array<{T(k, e // 4 if e % 4 == 0 else 11, s)}, {4 if e % 4 == 0 else 2}, {1 if e % 4 == 0 else 0}>"
            calls = []
            for _ in range(3):
                iw = g.r.choice([8, 8, 9, 32, 32, 33, 64, 65, 100])
                isg = g.r.choice((0, 0, 1))
                ve = g.r.choice([e, e, e, max(1, e - 1), e + 1, e + 64])
                if hi_ >= 99 and iw == 8:
                    iw = 9
                calls.append(f"h.template write<{T(4, iw, isg)}, {T(k, ve, g.r.choice((0, 1)))}>();")
                calls.append(f"h.template read<{T(4, iw, isg)}>();")
            for _ in range(4):
                a, b = g.r.randint(lo_, hi_), g.r.randint(lo_, hi_)
                if g.r.random() < 0.5:
                    b = a
                hi, lo = max(a, b), min(a, b)
                p, q = (hi, lo) if m >= l else (lo, hi)
                z = (hi - lo + 1) * e
                ve = g.r.choice([z, z, max(1, z - 1), z + 3])
                calls.append(f"h.template write_const<{p}, {q}, {T(k, ve, g.r.choice((0, 1)))}>();")
                calls.append(f"h.template read_const<{p}, {q}>();")
            sw = ' '.join(f"case {i}: {c} break;" for i, c in enumerate(calls))
            g.add(f"{{ Arr<{E}, {m}, {l}> h; for (int r = 0; r < {g.n(8, 20)}; r++) {{ h.fresh(); "
                  f"for (int i = 0; i < {g.n(25, 60)}; i++) switch (rng.below({len(calls)})) {{ {sw} }} }} }}")
    for k in (2, 4):     # an unpacked array of packed arrays: elements are written whole
        E = f"logic::packed_array<{T(k, 5, 0)}, 3, 0>"
        calls = ["h.read();", "h.read();"] + [f"h.template write<{i}, {E}>();" for i in (0, 1, 3, 4)]
        sw = ' '.join(f"case {i}: {c} break;" for i, c in enumerate(calls))
        g.add(f"{{ UArr<{E}, 3, 0> h; for (int r = 0; r < 5; r++) {{ h.fresh(); "
              f"for (int i = 0; i < 20; i++) switch (rng.below({len(calls)})) {{ {sw} }} }} }}")
    for (e, m, l) in ((1, 3, 0), (8, 3, 0), (4, 0, 3), (33, 5, 2), (64, 2, 0), (65, 2, 0), (100, 3, 1), (8, -1, -3), (5, 0, 0)):
        for k in (2, 4):
            s = g.r.choice((0, 1))
            lo, hi = min(m, l), max(m, l)
            calls = ["h.read();", "h.read();"]
            for i in sorted({lo, hi, g.r.randint(lo, hi), hi + 1, lo - 1}):
                ve = g.r.choice([e, e, e + 1, max(1, e - 1)])
                calls.append(f"h.template write<{i}, {T(k, ve, g.r.choice((0, 1)))}>();")
            sw = ' '.join(f"case {i}: {c} break;" for i, c in enumerate(calls))
            g.add(f"{{ UArr<{T(k, e, s)}, {m}, {l}> h; for (int r = 0; r < {g.n(6, 15)}; r++) {{ h.fresh(); "
                  f"for (int i = 0; i < {g.n(20, 40)}; i++) switch (rng.below({len(calls)})) {{ {sw} }} }} }}")


def C17(g):
    n = g.n(2, 15)
    for w in ALLW:
        for (a, b) in ((0, 0), (1, 1)):
            g.add(f"mirror2<{w}, {S[a]}, {w}, {S[b]}>({n});")
        for s in (0, 1):
            g.add(f"mirror1<{w}, {S[s]}>({n});")
            g.add(f"lift<{w}, {S[s]}>({n});")
        # a two-state operand next to a four-state one, known or not
        a, b = g.r.choice([(0, 0), (1, 1), (0, 1)])
        for f in ('arith', 'divide', 'compare', 'match'):
            g.add(f"{f}<{T(4, w, a)}, {T(2, w, b)}>({n});")
    for (w, v) in g.mixed(g.n(50, 150)):
        a, b = g.signs()
        g.add(f"mirror2<{w}, {S[a]}, {v}, {S[b]}>({n});")
    for (x, y) in g.sweep2(wide=(384,)):
        if g.r.random() < g.n(40, 100) / 100:
            g.add(f"mirror2<{x[1]}, {S[x[2]]}, {y[1]}, {S[y[2]]}>(1);")
        g.add(f"lift<{x[1]}, {S[x[2]]}>(1);")


def C18(g):
    n = g.n(25, 150)
    g.ranged(lambda x, y: [f"numbers<{x}>(6);"])
    for w in ALLW + [21, 22, 23, 25, 30, 35, 50, 61]:
        for k in (2, 4):
            for s in (0, 1):
                g.add(f"numbers<{T(k, w, s)}>({n});")
    for (m, l) in ((7, 4), (0, 7), (3, 40), (70, 3), (0, 66)):
        for k in (2, 4):
            g.add(f"numbers<{TR(k, m, l, g.r.choice((0, 1)))}>({n});")
    for w in range(1, 5):
        for s in (0, 1):
            g.add(f"numbers_all<{T(4, w, s)}>();")
    for w in range(1, 9):
        for s in (0, 1):
            g.add(f"numbers_all<{T(2, w, s)}>();")
    lits = sorted({0, 1, 2, 7, 255, 256, 32767, 32768, 65535, 2**31 - 1, 2**31, 2**32 - 1, 2**63 - 1, 2**63, 2**64 - 1}
                  | {g.r.randrange(2**31) for _ in range(5)} | {g.r.randrange(2**64) for _ in range(5)})
    for v in lits:
        g.add(f'ev0("lit", {{32, 2}}, "{v}", [] {{ using namespace logic::literals; return {v}_bit; }});')
        g.add(f'ev0("lit", {{32, 4}}, "{v}", [] {{ using namespace logic::literals; return {v}_logic; }});')
        g.add(f'ev0("lit", {{64, 2}}, "{v}", [] {{ using namespace logic::literals; return {v}_bit64; }});')
        g.add(f'ev0("lit", {{64, 4}}, "{v}", [] {{ using namespace logic::literals; return {v}_logic64; }});')
    g.arrays(lambda A, V, w: [f"numbers<{A}>({n});"])
    for x in g.sweep():
        g.add(f"numbers<{T(*x)}>(4);")


def jobs(pid, tier, seed):
    g = Gen(tier, seed)
    globals()[pid](g)
    return [j for j in g.jobs if j]


def make(js):
    """a recording program of these jobs, and which job each of its lines belongs to"""
    out = ['#include "ops.hh"']
    body, lines = [], {}
    for k in range(0, len(js), 25):          # small functions keep the compiler fast
        out.append(f"static void f{k}() {{")
        for j in js[k:k + 25]:
            out.append('    ' + j)
            lines[len(out)] = j
        out.append("}")
        body.append(f"    f{k}();")
    out += ["int main(int argc, char **argv) {", "    open_log(argv[1], strtoull(argv[2], nullptr, 10));",
            "    probing = argc > 3 && argv[3][0] == '1';", *body, "    close_log();", "}", ""]
    return '\n'.join(out), lines


PER_SHARD = {'quick': 80, 'thorough': 100}


def plan(pid, tier, seed):
    if pid == 'C13':
        return hist.plan13(tier, seed)
    if pid == 'C19':
        return hist.plan19(tier, seed)
    js = jobs(pid, tier, seed)
    random.Random(seed).shuffle(js)
    n = max(8, (len(js) + PER_SHARD[tier] - 1) // PER_SHARD[tier])
    # what the optimiser makes of the code counts too
    fl = lambda i: [*FLAGS.get(pid, []), *(['-O1'] if tier == 'thorough' and i % 4 == 3 else [])]
    return [{'name': f'{pid}_{i}', 'jobs': js[i::n], 'make': make, 'flags': fl(i),
             'runs': [[str(seed * 1000 + i), '0']]} for i in range(n) if js[i::n]]


# memory errors, traps and overflow of C++ integers end the recording with the call in progress
ASAN = ['-fsanitize=address']
TRAP = 'signed-integer-overflow,integer-divide-by-zero,bounds'
FLAGS = {'C03': [*ASAN, '-fsanitize=' + TRAP, '-fsanitize-trap=' + TRAP],
         'C04': [*ASAN, '-fsanitize=' + TRAP, '-fsanitize-trap=' + TRAP],
         'C11': ASAN, 'C12': ASAN, 'C14': ASAN, 'C15': ASAN, 'C16': ASAN}


if __name__ == '__main__':
    import sys
    for p in sys.argv[1:]:
        print(p, len(jobs(p, 'quick', 1)), len(jobs(p, 'thorough', 1)))
