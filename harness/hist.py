"""Histories of calls on a register file: typed registers and a menu of possible calls.

The same configuration is given to the specification (spec/LogicGen.tla generates behaviours from it,
spec/LogicTrace.tla checks recorded ones) and, as C++, to the code. A job is one menu entry; entries
that the code does not offer are dropped from both.
"""
import json
import os
import random

S = ['false', 'true']


class Reg:
    def __init__(self, i, k, w, s, decl=None, arr=None):
        self.i, self.k, self.w, self.s, self.arr = i, k, w, s, arr
        self.decl = decl or f"{'G' if k == 4 else 'B'}<{w}, {S[s]}>"
        self.n = f'g.r{i}'


class Conf:
    """regs, menu; jobs are JSON texts so that they can be compared and dropped"""

    def __init__(self, r):
        self.r, self.regs, self.menu, self.structs = r, [], [], []

    def reg(self, k, w, s, decl=None, arr=None):
        self.regs.append(Reg(len(self.regs) + 1, k, w, s, decl, arr))
        return self.regs[-1]

    def entry(self, o, p, x, d, cpp, t=None):
        """x: registers or inline values [w, s, k, digits]; d: destination registers (None: dropped)"""
        xs = [[a.i] if isinstance(a, Reg) else a for a in x]
        ds = [a.i if a else 0 for a in d]
        self.menu.append(json.dumps({'o': o, 'p': p, 't': t or '', 'x': xs, 'd': ds, 'cpp': cpp}))

    # result kept in dst / first operand changed
    def keep(self, o, p, x, dst, e, t=None):
        q = lambda v: json.dumps(v, separators=(',', ':')).replace('"', '\\"')
        xs = q([[a.i] if isinstance(a, Reg) else a for a in x])
        if t is None:
            cpp = f'OPR("{o}", "{q(p)}", "{xs}", "[{dst.i}]", {dst.n}, ({e}))'
        else:
            cpp = f'OPT("{o}", "{q(p)}", "{xs}", "[{dst.i}]", {json.dumps(t)}, {dst.n}, ({e}))'
        self.entry(o, p, x, [dst], cpp, t)

    def change(self, o, p, x, e):
        q = lambda v: json.dumps(v, separators=(',', ':')).replace('"', '\\"')
        xs = q([[a.i] if isinstance(a, Reg) else a for a in x])
        obj = x[0]
        self.entry(o, p, x, [obj], f'OPM("{o}", "{q(p)}", "{xs}", "[{obj.i}]", {obj.n}, {e})')

    def change_keep(self, o, p, x, dst, e):
        q = lambda v: json.dumps(v, separators=(',', ':')).replace('"', '\\"')
        xs = q([[a.i] if isinstance(a, Reg) else a for a in x])
        obj = x[0]
        self.entry(o, p, x, [obj, dst],
                   f'OPP("{o}", "{q(p)}", "{xs}", "[{obj.i},{dst.i}]", {obj.n}, {dst.n}, ({e}))')


def vecs(c, k=None):
    return [a for a in c.regs if (k is None or a.k == k) and a.arr is None]


def num(r, w):
    """digits of a number, biased"""
    t = r.randrange(5)
    v = [0, 2**w - 1, r.randrange(2**w), r.randrange(min(2**w, 16)), 1 << r.randrange(w)][t]
    return format(v, f'0{w}b')


def general(c, count):
    """a menu over the whole API"""
    r = c.r
    by = {k: vecs(c, k) for k in (2, 4)}
    kinds = [k for k in (2, 4) if by[k]]

    def same():                       # two operands and a destination of one kind
        k = r.choice(kinds)
        return r.choice(by[k]), r.choice(by[k]), r.choice(by[k])

    def any_():
        return r.choice(vecs(c))

    def mixed():                      # four-state left, two-state right, equal widths
        L = [(a, b) for a in by[4] for b in by[2] if a.w == b.w and not (a.s and not b.s)]
        return r.choice(L) if L else None

    def const(k, w):
        return num(r, w) if k == 2 or r.random() < 0.5 else ''.join(r.choice('01xz') for _ in range(w))

    sym = {'and': '&', 'or': '|', 'xor': '^', 'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'mod': '%',
           'shl': '<<', 'shr': '>>', 'eq': '==', 'ne': '!=', 'lt': '<', 'gt': '>', 'le': '<=', 'ge': '>='}

    def f_bitwise():
        a, b, d = same()
        o = r.choice(['and', 'or', 'xor'])
        c.keep(o, [], [a, b], d, f'{a.n} {sym[o]} {b.n}')

    def f_arith():
        a, b, d = same()
        if r.random() < 0.2 and mixed():
            a, b = mixed()
            d = r.choice(by[4])
        o = r.choice(['add', 'add', 'sub', 'sub', 'mul', 'div', 'mod'])
        c.keep(o, [], [a, b], d, f'{a.n} {sym[o]} {b.n}')

    def f_shift():
        a, b, d = same()
        o = r.choice(['shl', 'shr', 'ashl', 'ashr'])
        if o == 'ashr' and a.s and a.w > 64:      # known finding
            o = 'ashl'
        e = f'{a.n} {sym[o]} {b.n}' if o in sym else f'{a.n}.{o}({b.n})'
        if r.random() < 0.6:                      # an amount that moves something
            w = r.choice([8, 9, 32, 64, 65])
            v = [w, 0, a.k, format(r.randrange(min(a.w + 2, 2**w)), f'0{w}b')]
            t = f'mk<{"G" if a.k == 4 else "B"}<{w}>>("{v[3]}")'
            e = f'{a.n} {sym[o]} {t}' if o in sym else f'{a.n}.{o}({t})'
            return c.keep(o, [], [a, v], d, e)
        c.keep(o, [], [a, b], d, e)

    def f_compound():
        a, b, _ = same()
        o, s = r.choice([('andeq', '&='), ('oreq', '|='), ('xoreq', '^='), ('shleq', '<<='), ('shreq', '>>=')])
        c.change(o, [], [a, b], f'{a.n} {s} {b.n}')

    def f_compare():
        a, b, d = same()
        o = r.choice(['eq', 'ne', 'lt', 'gt', 'le', 'ge'])
        if r.random() < 0.2 and mixed():
            a, b = mixed()
            d = r.choice(by[4])
        elif a.k == 2:
            d = any_()
        c.keep(o, [], [a, b], d, f'{a.n} {sym[o]} {b.n}')

    def f_match():
        a, b, d = same()
        if a.w != b.w and (a.s or b.s):
            b = a
        o = r.choice(['match', 'nmatch'])
        c.keep(o, [], [a, b], any_(), f'{a.n}.{o}({b.n})')

    def f_reduce():
        a = any_()
        o, m = r.choice([('rand', 'r_and'), ('rnand', 'r_nand'), ('ror', 'r_or'), ('rnor', 'r_nor'),
                         ('rxor', 'r_xor'), ('rxnor', 'r_xnor')])
        c.keep(o, [], [a], r.choice(by[a.k]), f'{a.n}.{m}()')

    def f_truth():
        a = any_()
        if r.random() < 0.5:
            c.keep('lnot', [], [a], r.choice(by[a.k]), f'!{a.n}')
        else:
            c.keep('bool', [], [a], any_(), f'static_cast<bool>({a.n})')

    def f_unary():
        a = any_()
        o, m = r.choice([('not', '~'), ('not', '~'), ('neg', '-'), ('pos', '+')])
        c.keep(o, [], [a], r.choice(by[a.k]), f'{m}{a.n}')

    def f_bump():
        a = any_()
        o, e = r.choice([('preinc', f'++{a.n}'), ('predec', f'--{a.n}'), ('postinc', f'{a.n}++'), ('postdec', f'{a.n}--')])
        if o[:3] == 'pre':
            c.change(o, [], [a], e)
        else:
            ds = [d for d in by[a.k] if d is not a]
            if ds:
                c.change_keep(o, [], [a], r.choice(ds), e)

    def f_sign():
        a = any_()
        o, m = r.choice([('tosigned', 'to_signed'), ('tounsigned', 'to_unsigned')])
        c.keep(o, [], [a], r.choice(by[a.k]), f'{a.n}.{m}()')

    def f_ext():
        a = any_()
        t = a.w + r.choice([0, 1, 3, 32, 64])
        c.keep('ext', [t], [a], r.choice(by[a.k]), f'{a.n}.extend<{t}>()')

    def f_assign():
        a, b, d = same()
        if r.random() < 0.25:
            L = [(x, y) for x in by[4] for y in by[2] if x.w == y.w and x.s == y.s]
            if L:
                a, b = r.choice(L)
        c.change('assign', [], [a, b], f'{a.n} = {b.n}')

    def f_conv():
        a, _, d = same()
        w, s = r.choice([a.w, a.w + 1, 32, 64, 65, d.w]), r.choice((0, 1))
        if not a.s:
            w, s = a.w, a.s
        c.keep('conv', [w, s, a.k], [a], d, f"{'G' if a.k == 4 else 'B'}<{w}, {S[s]}>({a.n})")

    def f_int():
        a = any_()
        w = r.choice([8, 16, 32, 64])
        s = r.choice((0, 1))
        b = num(r, w)
        v = int(b, 2)
        lit = f"static_cast<{'' if s else 'u'}int{w}_t>({v}ull)"
        if r.random() < 0.5:
            c.change('assignint', [], [a, [w, s, 1, b]], f'{a.n} = {lit}')
        else:
            t, ts = r.choice([a.w, 8, 64, 65]), r.choice((0, 1))
            c.keep('fromint', [t, ts, a.k], [[w, s, 1, b]], a, f"{'G' if a.k == 4 else 'B'}<{t}, {S[ts]}>({lit})")

    def f_num():
        a = any_()
        if a.w <= 64 and r.random() < 0.5:
            c.keep('tonum', [], [a], any_(), f'{a.n}.to_num()')
        else:
            c.keep('touint64', [], [a], any_(), f'{a.n}.to_uint64()')

    def f_count():
        if by[2]:
            a = r.choice(by[2])
            o, m = r.choice([('popcount', 'popcount'), ('negative', 'negative'), ('allset', 'all_set'), ('anyset', 'any_set')])
            c.keep(o, [], [a], any_(), f'{a.n}.{m}()')
            b = r.choice(by[2])
            o, m = r.choice([('negateeq', 'negate'), ('maskall', 'mask')])
            c.change(o, [], [b], f'{b.n}.{m}()')
            c.keep('negate', [], [a], b, f'cref({a.n}).negate()')

    def f_get():
        a = any_()
        i = r.choice([0, a.w - 1, r.randrange(a.w), r.randrange(a.w), a.w, -1])
        p = [a.w - 1, 0, i]
        d = r.choice(by[a.k])
        c.keep('get', p, [a], d, f'{a.n}[{i}]')
        ix = [b for b in by[2] if b.w > 1]
        if a.k == 4 and ix:
            b = r.choice(ix)
            c.keep('geti', p[:2], [a, b], d, f'{a.n}.get({b.n})')

    def f_set():
        a = any_()
        i = r.choice([0, a.w - 1, r.randrange(a.w), r.randrange(a.w), a.w, -1])
        p = [a.w - 1, 0, i]
        t = r.randrange(4) if a.k == 4 else r.randrange(2)
        if t == 0:
            v = r.randrange(2)
            c.change('set', p, [a, [1, 0, 0, str(v)]], f'{a.n}.set({i}, {S[v]})')
        elif t == 1:
            ones = [b for b in by[a.k] if b.w == 1 and not b.s]
            if ones:
                b = r.choice(ones)
                c.change('set', p, [a, b], f'{a.n}.set({i}, {b.n})')
            elif 0 <= i < a.w:
                v = r.randrange(2)
                c.change('set', p, [a, [1, 0, 0, str(v)]], f'({a.n}.set<{i}, {S[v]}>())')
        elif t == 2:
            c.change('setx', p, [a], f'{a.n}.set_x({i})' if not 0 <= i < a.w or r.random() < 0.5 else f'{a.n}.set_x<{i}>()')
        else:
            c.change('setz', p, [a], f'{a.n}.set_z({i})' if not 0 <= i < a.w or r.random() < 0.5 else f'{a.n}.set_z<{i}>()')

    def span(w):
        x, y = r.randrange(w), r.randrange(w)
        return max(x, y), min(x, y)

    def f_slice():
        a = any_()
        hi, lo = span(a.w)
        z = hi - lo + 1
        e = [f'({a.n}.slice<{hi}, {lo}>())', f'{a.n}.slice<{z}>({hi}, {lo})'][r.randrange(2)]
        d = r.choice(by[a.k])
        if r.random() < 0.3:
            up = r.randrange(2)
            base = lo if up else hi
            w = r.choice([8, 9, 32, 64])
            if base < 2**w:
                v = [w, 0, 2, format(base, f'0{w}b')]
                return c.keep('slicei', [z, up], [a, v], d, f'({a.n}.slice<{z}, {S[up]}>(mk<B<{w}>>("{v[3]}")))')
        c.keep('slice', [hi, lo], [a], d, e)

    def f_update():
        a, b, _ = same()
        hi, lo = span(a.w)
        z = hi - lo + 1
        p = [a.w - 1, 0, hi, lo]
        e = [f'({a.n}.update<{hi}, {lo}>({b.n}))', f'{a.n}.update({hi}, {lo}, {b.n})',
             f'({a.n}.slice_ref<{hi}, {lo}>() = {b.n})', f'{a.n}.slice_ref({hi}, {lo}) = {b.n}'][r.randrange(4)]
        if r.random() < 0.25:
            up = r.randrange(2)
            base = lo if up else hi
            w = r.choice([8, 9, 32, 64])
            if base < 2**w:
                v = [w, 0, 2, format(base, f'0{w}b')]
                return c.change('updatei', [z, up], [a, b, v],
                                f'({a.n}.slice_ref<{z}, {S[up]}>(mk<B<{w}>>("{v[3]}")) = {b.n})')
        c.change('update', p, [a, b], e)

    def f_concat():
        k = r.choice(kinds)
        xs = [r.choice(by[k]) for _ in range(r.choice([2, 2, 3]))]
        if sum(a.w for a in xs) <= 400:
            c.keep('concat', [], xs, r.choice(by[k]), f"logic::concat({', '.join(a.n for a in xs)})")

    def f_unpack():
        k = r.choice(kinds)
        src = r.choice(by[k])
        ds = [a for a in by[k] if a is not src]
        if len(ds) >= 1:
            ds = r.sample(ds, r.randint(1, min(3, len(ds))))
            if sum(a.w for a in ds[1:]) >= src.w:
                return
            q = lambda v: json.dumps(v, separators=(',', ':')).replace('"', '\\"')
            x = [src, *ds]
            xs = q([[a.i] for a in x])
            names = ', '.join(a.n for a in ds)
            c.entry('unpack', [], x, ds,
                    f'{{ Step s_("unpack", "[]", "{xs}", "{q([a.i for a in ds])}"); {src.n}.unpack({names}); s_.res({names}); }}')

    def f_parse():
        a = any_()
        base = r.choice('bohbohd')
        n = {'b': a.w, 'o': -(-a.w // 3), 'h': -(-a.w // 4), 'd': a.w * 3 // 10 + 1}[base]
        n = max(1, n + r.choice([0, 0, -1, 1]))
        alpha = {'b': '01', 'o': '01234567', 'h': '0123456789abcdefF', 'd': '0123456789'}[base]
        if a.k == 4 and base != 'd' and r.random() < 0.4:
            alpha += 'xz'
        t = "'" + base + ''.join(r.choice(alpha) for _ in range(n))
        c.keep('parse', [a.w, a.s, a.k], [], a, f'{a.decl}(Sv({json.dumps(t)}))', t)

    def f_default():
        a = any_()
        c.keep('default', [a.w, a.s, a.k], [], a, f'{a.decl}{{}}')

    def f_array():
        arrs = [a for a in c.regs if a.arr]
        if not arrs:
            return
        a = r.choice(arrs)
        e, m, l = a.arr
        lo, hi = min(m, l), max(m, l)
        idx = [b for b in by[4] if b.w >= 3]
        d = r.choice(by[a.k])
        t = r.randrange(5)
        if t == 0 and idx:
            ix, v = r.choice(idx), r.choice(by[a.k])
            c.change('aupdr', [e, m, l], [a, ix, v], f'{a.n}.update({ix.n}, {v.n})')
        elif t == 1 and idx:
            ix = r.choice(idx)
            c.keep('aref', [e, m, l], [a, ix], d, f'cref({a.n})[{ix.n}]')
        elif t == 2:
            ix = [8, 0, 4, format(r.randint(lo, hi), '08b')]
            v = r.choice(by[a.k])
            c.change('aupdr', [e, m, l], [a, ix, v], f'{a.n}.update(mk<G<8>>("{ix[3]}"), {v.n})')
        elif t == 3:
            x, y = r.randint(lo, hi), r.randint(lo, hi)
            x, y = max(x, y), min(x, y)
            c.change('aupd', [e, m, l, x, y], [a, r.choice(by[a.k])], f'({a.n}.update<{x}, {y}>({{}}))')
            # the operand is named twice: fill it in
            ent = json.loads(c.menu.pop())
            v = c.regs[ent['x'][1][0] - 1]
            ent['cpp'] = ent['cpp'].replace('({})', f'({v.n})')
            c.menu.append(json.dumps(ent))
        else:
            x, y = r.randint(lo, hi), r.randint(lo, hi)
            x, y = max(x, y), min(x, y)
            c.keep('aslice', [e, m, l, x, y], [a], d, f'({a.n}.slice_array<{x}, {y}>())')

    fams = [f_bitwise, f_bitwise, f_arith, f_arith, f_shift, f_compound, f_compound, f_compare, f_match, f_reduce,
            f_truth, f_unary, f_bump, f_bump, f_sign, f_ext, f_assign, f_assign, f_conv, f_int, f_num, f_count,
            f_get, f_set, f_set, f_slice, f_slice, f_update, f_update, f_update, f_concat, f_unpack, f_parse,
            f_parse, f_parse, f_array, f_array, f_default]
    for f in dict.fromkeys(fams):
        f()
    while len(c.menu) < count:
        r.choice(fams)()


def source(c):
    """make(jobs) for a configuration"""
    def make(js):
        out = ['#include "hist.hh"', *c.structs, 'struct Regs {']
        out += [f'    {a.decl} r{a.i}{{}};' for a in c.regs]
        for const in ('', ' const'):
            out.append(f'    template <class F> void each(F f){const} {{ ' + ' '.join(f'f(r{a.i});' for a in c.regs) + ' }')
        out.append('};')
        lines = {}
        for i, j in enumerate(js):
            out.append(f"static void e{i + 1}(Regs &g) {{ {json.loads(j)['cpp']} }}")
            lines[len(out)] = j
        out += ['int main(int argc, char **argv) {', '    open_log(argv[1], strtoull(argv[2], nullptr, 10));',
                "    probing = argv[3][0] == '1';", '    auto h = std::make_unique<Hist<Regs>>();']
        for i, j in enumerate(js):
            e = json.loads(j)
            what = f"{i + 1}: {e['o']} {e['p']} {e['t']} on {e['x']} to {e['d']}".replace('"', "'").replace('\\', '')
            out.append(f'    h->menu.push_back(e{i + 1}); h->names.push_back({json.dumps(what)});')
        out += ["    if (argv[4][0] == 'w') h->walk(atoi(argv[5]), atoi(argv[6]));", '    else h->replay(argv[5]);',
                '    close_log();', '}', '']
        return '\n'.join(out), lines
    return make


def write_conf(c, js, path, depth):
    menu = [{k: v for k, v in json.loads(j).items() if k != 'cpp'} for j in js]
    with open(path, 'w') as f:
        json.dump({'regs': [[a.w, a.s, a.k] for a in c.regs], 'menu': menu, 'depth': depth}, f)


def shard(c, name, seed, flags, walk, sim=None, full=False):
    """a shard: recorded walks, replays of generated behaviours, replays of every step"""
    def generate(work, rname, js, tlc, stats, mode):
        conf = os.path.join(work, rname + '.conf')
        write_conf(c, js, conf, sim[1] + 1 if mode == 'sim' else 0)
        cfg = os.path.join(work, rname + '.cfg')
        body = 'INVARIANT TypeOK\nCHECK_DEADLOCK FALSE\n'
        if mode == 'sim':
            body = 'SPECIFICATION GenSpec\n' + body
            args = ['-simulate', f'num={sim[0]}', '-depth', str(sim[1] + 2), '-seed', str(seed)]
        else:
            body = 'SPECIFICATION AllSpec\nPROPERTY Kept\n' + body
            args = []
        with open(cfg, 'w') as f:
            f.write(body)
        rc, out = tlc(work, 'g' + rname, 'LogicGen.tla', cfg, env={'CONF': conf}, args=args)
        path = os.path.join(work, rname + '.beh')
        n = 0
        with open(path, 'w') as f:
            for line in out.splitlines():
                if line[:2] in ('"B', '"S', '"T') and line[2] == ' ' and line.endswith('"'):
                    f.write(line[1:-1] + '\n')
                    n += 1
        import re
        m = re.findall(r'([\d,]+) states generated(?:, ([\d,]+) distinct states found, 0 states left)?', out)
        if rc != 0 or n == 0 or (mode == 'all' and not m):
            raise RuntimeError(f'generation of {rname}: TLC ended with {rc}\n' + out[-2500:])
        g = [int(x.replace(',', '')) if x else n for x in m[-1]] if m else [n, n]
        stats.append({'model': f'LogicGen {mode} {rname}', 'transitions': n, 'states': g[1] if mode == 'all' else n,
                      'wall_s': 0})
        return path

    def prepare(work, rname, js, tlc, args, stats):
        if args[2] in ('sim', 'all'):
            return [args[0], args[1], 'r', generate(work, rname, js, tlc, stats, args[2])]
        return args

    runs = [[str(seed), '1', 'w', str(walk[0]), str(walk[1])]]
    if sim:
        runs.append([str(seed), '1', 'sim'])
    if full:
        runs.append([str(seed), '1', 'all'])
    return {'name': name, 'jobs': list(dict.fromkeys(c.menu)), 'make': source(c), 'flags': flags, 'runs': runs,
            'prepare': prepare}


# ---------------------------------------------------------------------------- C13
WIDTHS = [1, 2, 3, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 40, 48, 61, 63, 64, 65, 66, 72, 90, 96, 100,
          127, 128, 129, 130, 140]


def wide_conf(r, size):
    c = Conf(r)
    w1, w2 = r.choice(WIDTHS), r.choice([w for w in WIDTHS if w > 60])
    if r.random() < 0.4:
        w2 = r.choice([w for w in WIDTHS if w <= 64])
    s1, s2 = r.choice((0, 1)), r.choice((0, 1))
    c.reg(4, w1, s1)
    c.reg(4, w2, s2)
    c.reg(4, w1, 1 - s1)
    c.reg(4, r.choice([1, 8, 32]), 0)
    c.reg(2, w1, s1)
    c.reg(2, w2, s2)
    c.reg(2, r.choice([1, 8, 64, 65]), r.choice((0, 1)))
    e, n = r.choice([(8, 4), (5, 3), (3, 5), (16, 2), (33, 2), (1, 7), (13, 6), (64, 2)])
    k = r.choice((2, 4))
    c.reg(k, e * n, 0, decl=f"logic::packed_array<{'G' if k == 4 else 'B'}<{e}>, {n - 1}, 0>", arr=(e, n - 1, 0))
    general(c, size)
    return c


def tiny_conf(r, size, shape):
    c = Conf(r)
    for k, w, s in shape:
        c.reg(k, w, s)
    general(c, size)
    return c


TINY = [[(4, 1, 0), (4, 2, 1), (2, 2, 0)], [(4, 2, 0), (4, 2, 1)], [(2, 3, 0), (2, 3, 1), (2, 2, 1)],
        [(4, 1, 1), (4, 1, 0), (2, 1, 0), (2, 2, 1)], [(4, 3, 0), (2, 3, 1)], [(4, 3, 1), (4, 1, 0)],
        [(2, 4, 0), (2, 4, 1)], [(4, 2, 1), (2, 2, 1), (4, 1, 1)]]


def plan13(tier, seed):
    q = tier == 'quick'
    fl = ['-DPROBING']
    out = []
    for i in range(8 if q else 48):
        r = random.Random(f'13-{seed}-{tier}-{i}')
        c = wide_conf(r, 70 if q else 110)
        out.append(shard(c, f'C13_w{i}', seed * 1000 + i, fl, (40, 30) if q else (150, 40),
                         sim=(12, 25) if q else (60, 40)))
    for i, shape in enumerate(TINY[:4] if q else TINY * 2):
        r = random.Random(f'13t-{seed}-{tier}-{i}')
        c = tiny_conf(r, 45 if q else 90, shape)
        out.append(shard(c, f'C13_t{i}', seed * 1000 + 500 + i, fl, (20, 40), full=True))
    return out + residue(tier, seed)


def residue(tier, seed):
    """single calls on every width, their results probed for anything that the digits do not show"""
    import gen
    T, q = gen.T, tier == 'quick'
    r = random.Random(f'13r-{seed}-{tier}')
    js = []
    for w in gen.ALLW:
        kinds = [(r.choice((2, 4)), r.randrange(2))] if q else [(k, s) for k in (2, 4) for s in (0, 1)]
        for k, s in kinds:
            t, n = T(k, w, s), 5 if q else 25
            v = r.choice([x for x in gen.EDGE + gen.MID if x != w])
            u = T(k, v, r.choice((0, 1)))
            hi = r.randrange(w)
            lo = r.randint(0, hi)
            js += [f'unary<{t}>({n * 2});', f'invert<{t}>({n});', f'resign<{t}>({n});', f'fromints<{t}>(1);',
                   f'arith<{t}, {t}>({n});', f'divide<{t}, {t}>({n});', f'shift<{t}, {t}>({n});',
                   f'bitwise<{t}, {t}>({n});', f'parse<{t}>(2);', f'assign<{t}, {u}>({n});',
                   f'update_const<{t}, {hi}, {lo}, {u}>({n});', f'slice_const<{t}, {hi}, {lo}>({n});',
                   f'slice_run<{t}, {hi - lo + 1}>({n});', f'bits_some<{t}>(2);']
            if q:
                js.append(r.choice([f'arith<{t}, {u}>({n});', f'divide<{t}, {u}>({n});', f'bitwise<{t}, {u}>({n});',
                                    f'shift<{t}, {u}>({n});']))
            else:
                js += [f'arith<{t}, {u}>({n});', f'divide<{t}, {u}>({n});', f'bitwise<{t}, {u}>({n});', f'shift<{t}, {u}>({n});']
            if v > w:
                js.append(f'extend_<{t}, {v}>({n});')
            if w + v < 300:
                js += [f'concat_<{t}, {u}>({n});', f'unpack_<{T(k, w + v, 0)}, {t}, {u}>({n});']
    js = list(dict.fromkeys(js))
    m = 16 if q else 64
    # types stay together: what is compiled is mostly the probes
    per = -(-len(js) // m)
    return [{'name': f'C13_r{i}', 'jobs': js[i * per:(i + 1) * per], 'make': gen.make, 'flags': ['-DPROBING'],
             'runs': [[str(seed * 1000 + 900 + i), '1']]} for i in range(m) if js[i * per:(i + 1) * per]]


# ---------------------------------------------------------------------------- C19
def struct_conf(r, total, tiny=False):
    """objects of packed structs and unions with overlapping fields, accessed the way tests do"""
    c = Conf(r)
    k = r.choice((2, 4)) if not tiny or total <= 2 else 2
    b = 'false' if k == 2 else 'true'
    n = r.randint(2, 5) if not tiny else 2
    cuts = sorted(r.sample(range(1, total), min(n, total) - 1))
    cuts = [0, *cuts, total]
    fields = [(hi - 1, lo) for lo, hi in zip(cuts, cuts[1:])]        # the struct: a partition
    views = [(total - 1, 0)] + [tuple(sorted((r.randrange(total), r.randrange(total)), reverse=True))
                                for _ in range(2 if tiny else 4)]    # the union: any parts

    def decl(name, base, fs):
        out = [f'struct {name} : logic::{base}<{total}, {b}> {{']
        for i, (hi, lo) in enumerate(fs):
            out.append(f'    template <typename T> static auto f{i}(const T &v) {{ return v.template slice<{hi}, {lo}>(); }}')
            out.append(f'    template <typename T, typename K> static void f{i}(T &v, const K &k) {{ v.template update<{hi}, {lo}>(k); }}')
        return out + ['};']
    c.structs = decl('St', 'packed_struct', fields) + decl('Un', 'union_', views)
    objs = [(c.reg(k, total, 0, decl='St::type'), 'St', fields), (c.reg(k, total, 0, decl='Un::type'), 'Un', views)]
    ws = sorted({hi - lo + 1 for fs in (fields, views) for hi, lo in fs})
    if tiny:
        ws = ws[:1]
    regs = [c.reg(k, w, 0 if tiny else r.choice((0, 0, 1))) for w in ws[:4]]
    if not tiny:
        regs.append(c.reg(k, r.choice([8, 32, 64, 65]), 0))
    for o, st, fs in objs:
        for i, (hi, lo) in enumerate(fs):
            p = [total - 1, 0, hi, lo]
            for d in regs:
                if d.w == hi - lo + 1 or r.random() < 0.4:
                    c.keep('slice', [hi, lo], [o], d, f'{st}::f{i}({o.n})')
                if d.w == hi - lo + 1 or r.random() < 0.4:
                    c.change('update', p, [o, d], f'{st}::f{i}({o.n}, {d.n})')
            # a field as a run-time part, as a slice reference, and from a field of the other object
            z = hi - lo + 1
            d = r.choice(regs)
            c.keep('slice', [hi, lo], [o], d, f'{o.n}.slice<{z}>({hi}, {lo})')
            c.change('update', p, [o, d], f'{o.n}.update({hi}, {lo}, {d.n})')
            c.change('update', p, [o, d], f'({o.n}.slice_ref<{hi}, {lo}>() = {d.n})')
            lit = ''.join(r.choice('01' if k == 2 or r.random() < 0.6 else '01xz') for _ in range(z))
            t = f"{'G' if k == 4 else 'B'}<{z}>"
            c.change('update', p, [o, [z, 0, k, lit]], f'{st}::f{i}({o.n}, mk<{t}>("{lit}"))')
        c.keep('default', [total, 0, k], [], o, f'{st}::type{{}}')
    (s, _, fs), (u, _, vs) = objs
    c.change('assign', [], [s, u], f'{s.n} = {u.n}')
    c.change('assign', [], [u, s], f'{u.n} = {s.n}')
    parts = (regs * 2)[:2]
    c.keep('concat', [], parts, u, f"logic::concat({', '.join(a.n for a in parts)})")
    vars_ = regs[:2]
    q = lambda v: json.dumps(v, separators=(',', ':')).replace('"', '\\"')
    names = ', '.join(a.n for a in vars_)
    c.entry('unpack', [], [s, *vars_], vars_,
            f'{{ Step s_("unpack", "[]", "{q([[a.i] for a in [s, *vars_]])}", "{q([a.i for a in vars_])}"); '
            f'{s.n}.unpack({names}); s_.res({names}); }}')
    for a in regs:
        c.keep('not', [], [a], a, f'~{a.n}')
        t = ''.join(r.choice('01' if k == 2 else '01xz') for _ in range(a.w))
        c.keep('parse', [a.w, a.s, k], [], a, f"{a.decl}(Sv(\"'b{t}\"))", "'b" + t)
        c.change('preinc', [], [a], f'++{a.n}')
    c.keep('xor', [], [s, u], s, f'{s.n} ^ {u.n}')
    c.keep('add', [], [s, u], u, f'{s.n} + {u.n}')
    return c


def plan19(tier, seed):
    q = tier == 'quick'
    out = []
    sizes = [1 + 1, 7, 10, 16, 31, 32, 33, 48, 63, 64, 65, 66, 96, 100, 127, 128, 129, 190, 257]
    r0 = random.Random(f'19-{seed}-{tier}')
    pick = r0.sample(sizes, 8) + [64, 65, 128, 130, 16, 33] if q else sizes * 4
    for i, total in enumerate(pick):
        r = random.Random(f'19-{seed}-{tier}-{i}')
        c = struct_conf(r, total)
        out.append(shard(c, f'C19_w{i}', seed * 1000 + i, [], (60, 30) if q else (300, 40),
                         sim=(20, 25) if q else (100, 40)))
    import gen
    g = gen.Gen(tier, seed)
    js = []
    for w, hi, lo in gen.edge_parts(g, .4 if q else 1):      # fields as wide as a word, or nearly
        k, t = g.r.choice([(2, 'packed_struct'), (4, 'packed_struct'), (2, 'union_'), (4, 'union_')])
        t = f"logic::{t}<{w}, {gen.S[k == 4]}>::type"
        js += [f"slice_const<{t}, {hi}, {lo}>(3);", f"update_const<{t}, {hi}, {lo}, {gen.T(k, hi - lo + 1, g.r.choice((0, 1)))}>(4);"]
    m = 4 if q else 12
    out += [{'name': f'C19_f{i}', 'jobs': js[i::m], 'make': gen.make, 'flags': [], 'runs': [[str(seed * 1000 + 800 + i), '0']]}
            for i in range(m)]
    for i, total in enumerate([2, 4] if q else [2, 2, 2, 3, 3, 4, 4, 5]):
        r = random.Random(f'19t-{seed}-{tier}-{i}')
        out.append(shard(struct_conf(r, total, tiny=True), f'C19_t{i}', seed * 1000 + 500 + i, [], (20, 40), full=True))
    return out
