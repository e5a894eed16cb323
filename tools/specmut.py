#!/usr/bin/env python3
"""Are the laws worth anything?  Breaks one definition of the specification at a time (in a scratch
copy) and reports which laws TLC finds violated.  Not part of any check."""
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + '/harness']
import models  # noqa: E402

M = [  # file, old, new, laws expected to notice
    ('BitVec', 'And1(p, q) == IF p = 0 \\/ q = 0 THEN 0', 'And1(p, q) == IF p = 0 THEN 0', 'C01'),
    ('BitVec', 'Or1(p, q)  == IF p = 1 \\/ q = 1 THEN 1', 'Or1(p, q)  == IF q = 1 THEN 1', 'C01'),
    ('BitVec', 'Xor1(p, q) == IF p > 1 \\/ q > 1 THEN X', 'Xor1(p, q) == IF p > 1 THEN X', 'C01'),
    ('BitVec', 'IF sgn THEN b[Len(b)] ELSE 0)', 'IF sgn /\\ b[Len(b)] = 1 THEN 1 ELSE 0)', 'C08'),
    ('BitVec', 'RedAnd(b) == IF \\E i \\in 1..Len(b) : b[i] = 0 THEN 0 ELSE IF HasXZ(b) THEN X', 'RedAnd(b) == IF HasXZ(b) THEN X ELSE IF \\E i \\in 1..Len(b) : b[i] = 0 THEN 0', 'C02'),
    ('BitVec', 'RedXor(b) == IF HasXZ(b) THEN X', 'RedXor(b) == IF b[1] > 1 THEN X', 'C02'),
    ('BitVec', 'Sub(a, b) == AddC(a, NotV(b), 1)', 'Sub(a, b) == AddC(a, NotV(b), 0)', 'C03'),
    ('BitVec', 'IN << p % Pow2(L), c[2] + p \\div Pow2(L) >>', 'IN << p % Pow2(L), p \\div Pow2(L) >>', 'C03'),
    ('BitVec', 'IF a[n] = 1 THEN Neg(qr[2]) ELSE qr[2] >>', 'IF b[n] = 1 THEN Neg(qr[2]) ELSE qr[2] >>', 'C04'),
    ('BitVec', 'r == << a[i] >> \\o Low(acc[2], hb)', 'r == << a[i] >> \\o Low(acc[2], hb - 1) \\o << 0 >>', 'C04'),
    ('BitVec', 'MinN(cap, 2 * v + b[i])', 'MinN(cap, 2 * v + b[i]) % 4', 'C05'),
    ('BitVec', 'IF n >= Len(a) THEN Fill(Len(a), fill)', 'IF n >= Len(a) THEN Zeros(Len(a))', 'C05'),
    ('BitVec', 'IF a[n] # b[n] THEN a[n] = 1 ELSE ULess(a, b)', 'IF a[n] # b[n] THEN b[n] = 1 ELSE ULess(a, b)', 'C06'),
    ('Ops', 'Same(x, y) == LET n == Wide(x, y) IN ExtTo(x, n) = ExtTo(y, n)', 'Same(x, y) == LET n == MinN(W(x), W(y)) IN ExtTo(x, n) = ExtTo(y, n)', 'C06'),
    ('Ops', 'Match(x, y) == Same(x, y)', 'Match(x, y) == ~HasXZ(x.b) /\\ Same(x, y)', 'C07'),
    ('Ops', 'PosOf(msb, lsb, i) == IF msb >= lsb THEN i - lsb ELSE lsb - i', 'PosOf(msb, lsb, i) == IF msb >= lsb THEN i - lsb ELSE i - msb', 'C09'),
    ('Ops', 'InWidth(pos, n) == pos >= 0 /\\ pos < n', 'InWidth(pos, n) == pos >= 0 /\\ pos < n - 1', 'C09'),
    ('Ops', 'Select(v, hi, lo) == Val(0, v.k,', 'Select(v, hi, lo) == Val(v.s, v.k,', 'C10'),
    ('Ops', 'IdxLo(n, up, base) == IF up = 1 THEN base ELSE base - n + 1', 'IdxLo(n, up, base) == IF up = 1 THEN base ELSE base - n', 'C10'),
    ('BitVec', 'Low(b, lo) \\o Resize(v, FALSE, hi - lo + 1)', 'Low(b, lo) \\o Resize(v, TRUE, hi - lo + 1)', 'C11'),
    ('Ops', 'LAMBDA a, v : v.b \\o a', 'LAMBDA a, v : a \\o v.b', 'C12'),
    ('Ops', 'LET hi == MinN(Len(b), from + n)', 'LET hi == MinN(Len(b), from + n - 1)', 'C12'),
    ('Text', 'LET ten == Add(Low(<<0, 0, 0>> \\o acc, n), Low(<<0>> \\o acc, n))', 'LET ten == Add(Low(<<0, 0>> \\o acc, n), Low(<<0>> \\o acc, n))', 'C14'),
    ('Text', 'LAMBDA c : c # "_")', 'LAMBDA c : TRUE)', 'C14'),
    ('Text', 'ELSE IF \\E i \\in 1..Len(d) : d[i] = X THEN "X" ELSE "Z"', 'ELSE IF d[1] = X THEN "X" ELSE "Z"', 'C15'),
    ('Text', 'LET neg == sgn /\\ b[n] = 1 /\\ ~HasXZ(b)', 'LET neg == sgn /\\ b[1] = 1 /\\ ~HasXZ(b)', 'C15'),
    ('Ops', 'ElemAt(p, i) == (i - MinN(p[2], p[3])) * p[1]', 'ElemAt(p, i) == i * p[1]', 'C16'),
    ('Ops', 'ElemValid(p, v) == ~HasXZ(v.b) /\\ ', 'ElemValid(p, v) == ', 'C16'),
    ('Ops', 'Default(w, s, k) == Val(s, k, IF k = 4 THEN Xs(w)', 'Default(w, s, k) == Val(s, k, IF k = 2 THEN Xs(w)', 'C17'),
    ('Ops', 'IF HasXZ(x.b) \\/ HasXZ(y.b) THEN Xs(n)', 'IF HasXZ(x.b) THEN Xs(n)', 'C03'),
    ('Ops', 'Val(s, 1, IF HasXZ(v.b) THEN Zeros(n) ELSE ExtTo(v, n))', 'Val(s, 1, ExtTo(v, n))', 'C18'),
    ('Ops', 'NumWidth(n) == IF n <= 8 THEN 8', 'NumWidth(n) == IF n <= 9 THEN 8', 'C18'),
    ('Ops', 'x[1].b[i] = 1 /\\ \\A j \\in (i + 1)..W(x[1]) : x[1].b[j] = 0', 'x[1].b[i] = 1 /\\ \\A j \\in 1..i - 1 : x[1].b[j] = 0', 'C02'),
    ('Ops', '[] o = "maskall" -> << Val(x[1].s, x[1].k, Fill(W(x[1]), 1)) >>', '[] o = "maskall" -> << Val(x[1].s, x[1].k, Fill(W(x[1]), x[1].b[1])) >>', 'C02'),
    ('Ops', '[] o = "negate" -> << Val(0, x[1].k, Neg(x[1].b)) >>', '[] o = "negate" -> << Val(0, x[1].k, NotV(x[1].b)) >>', 'C03'),
    ('Ops', '[] o = "geti" -> LET pos == PosOf(p[1], p[2], IntOf(x[2]))', '[] o = "geti" -> LET pos == PosOf(p[1], p[2], SmallIdx(x[2]))', 'C09'),
    ('Text', 'hex(d) == LET n == ToNat(d) IN HexDigit[(n \\div 16) + 1] \\o HexDigit[(n % 16) + 1]', 'hex(d) == LET n == ToNat(d) IN HexDigit[(n \\div 16) % 8 + 1] \\o HexDigit[(n % 16) + 1]', 'C15'),
    ('Text', 'LAMBDA acc, c : acc \\o DigitBits(c, 4), << >>, Reverse_(Chars(t)))', 'LAMBDA acc, c : acc \\o DigitBits(c, 4), << >>, Chars(t))', 'C14'),
    ('BitVec', 'SubSeq(b, hi + 2, Len(b))', 'SubSeq(b, hi + 2, Len(b) - 1) \\o (IF hi + 1 = Len(b) THEN << >> ELSE << b[hi + 2] >>)', 'C19'),
    ('Ops', 'Alike(o, x, r2, r4) ==\n  IF o \\in {"div", "mod"} /\\ IsZero(x[2].b)', 'Alike(o, x, r2, r4) ==\n  IF FALSE', 'C17'),
]


def go(k):
    f, a, b, want = M[k]
    d = tempfile.mkdtemp(prefix='specmut-')
    for x in os.listdir(V + '/spec'):
        if x.endswith('.tla'):
            shutil.copy(f'{V}/spec/{x}', d)
    s = open(f'{d}/{f}.tla').read()
    assert s.count(a) == 1, (a, s.count(a))
    open(f'{d}/{f}.tla', 'w').write(s.replace(a, b))
    hit = []
    for pid in [want]:
        for m in models.models(pid, 'quick', d):
            out = subprocess.run(['tlc', '-workers', '1', '-metadir', d + '/md', '-noGenerateSpecTE', '-config', m['config'], m['module']],
                                 cwd=d, capture_output=True, text=True).stdout
            if 'is violated' in out or 'Error:' in out:
                hit.append(m['name'] + ('' if 'is violated' in out else ' (evaluation error)'))
    shutil.rmtree(d, ignore_errors=True)
    return k, hit


if __name__ == '__main__':
    with ThreadPoolExecutor(6) as ex:
        for k, hit in ex.map(go, range(len(M))):
            print('caught' if hit else 'MISSED', M[k][3], hit, '|', M[k][2][:70], flush=True)
