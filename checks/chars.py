"""B04: characters, their Unicode properties and their UTF-8 encoding."""
import os
import unicodedata
import z3
from vf import build, data, smt, table
from vf.data import Char, Err, ANY
from vf.numspec import bool_is, int_is
from vf.oblig import Ob
from vf.sym import Ptr, is_c, Unsupported

U32 = lambda n: z3.BitVecVal(n, 32)


def scalar(c):
    if isinstance(c, int):
        c = U32(c)
    return z3.And(z3.ULE(c, U32(0x10ffff)), z3.Not(z3.And(z3.ULE(U32(0xd800), c), z3.ULE(c, U32(0xdfff)))))


# ---------------------------------------------------------------- the Unicode Character Database
_UCD = None


def ucd():
    """(category sets, decimal digit values, simple upper case, simple lower case)

    Python's own database decides for the characters that it knows; the file shipped with the
    project decides for the (newer) others and for simple case mappings that Python does not expose."""
    global _UCD
    if _UCD:
        return _UCD
    cat, up, down, digit = {}, {}, {}, {}
    first = None
    for ln in open(os.path.join(build.REPO, 'configure/UnicodeData.txt')):
        f = ln.rstrip('\n').split(';')
        if len(f) < 15:
            continue
        c = int(f[0], 16)
        if f[1].endswith(', First>'):
            first = c
        for k in range(first if f[1].endswith(', Last>') else c, c + 1):
            cat[k] = f[2]
        if f[12]:
            up[c] = int(f[12], 16)
        if f[13]:
            down[c] = int(f[13], 16)
        if f[2] == 'Nd':
            digit[c] = int(f[6])
    for c in range(0x110000):
        ch = chr(c)
        k = unicodedata.category(ch)
        if k != 'Cn':
            cat[c] = k
            if k == 'Nd':
                digit[c] = unicodedata.decimal(ch)
            else:
                digit.pop(c, None)
    for c in list(cat):
        ch = chr(c)
        if unicodedata.category(ch) == 'Cn' or 0xd800 <= c <= 0xdfff:
            continue
        for d, s in ((up, ch.upper()), (down, ch.lower())):
            if len(s) == 1 and unicodedata.category(ch) != 'Lt':
                d.pop(c, None)
                if ord(s) != c:
                    d[c] = ord(s)
    by = {}
    for c, k in cat.items():
        by.setdefault(k, []).append(c)
    _UCD = by, digit, up, down
    return _UCD


CATS = {'char-alphabetic?': ('Lm', 'Lo', 'Ll', 'Lt', 'Lu'), 'char-numeric?': ('Nd',), 'char-upper-case?': ('Lu',), 'char-lower-case?': ('Ll',), 'char-whitespace?': ('Zs', 'Zl', 'Zp')}


def chars_in(p):
    by = ucd()[0]
    s = [c for k in CATS[p] for c in by.get(k, ())]
    if p == 'char-whitespace?':
        s += [9, 10, 11, 12, 13, 0x85]
    return s


def case(i, c):
    """upper (2) or lower (3) case of code point c"""
    d = ucd()[i]
    if isinstance(c, int):
        return d.get(c, c)
    return table.lookup(c, d, 32, default=c)


SAMPLES = None


def samples():
    """boundary code points: those where a category or a mapping changes, and the encoding lengths"""
    global SAMPLES
    if SAMPLES is None:
        by, digit, up, down = ucd()
        s = {0, 1, 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0xd7ff, 0xe000}
        for k, cs in by.items():
            for a, b, t in table.runs(cs)[::9 if len(cs) > 500 else 3]:
                s |= {a, b, a - 1, b + 1}
        for d in (up, down, digit):
            ks = sorted(d)
            s |= set(ks[::5]) | {d[k] for k in ks[::7]}
        SAMPLES = [Char(c) for c in sorted(s) if 0 <= c < 0x110000 and not 0xd800 <= c < 0xe000]
    return SAMPLES


def sc(*xs):
    return [scalar(x.cp) for x in xs]


def pred(name):
    def post(W, st, xs, v):
        return bool_is(v, table.member(xs[0].cp, chars_in(name)))
    s = None

    def oracle(c):
        nonlocal s
        s = s or set(chars_in(name))
        return c.cp in s
    return Ob(name, ['c'], post, oracle, pre=sc, grid=lambda: [(c,) for c in samples()])


def char_is(v, e):
    if v.kind != 'char':
        return [('result is a character', False)]
    return [('result', bv32(v.cp) == e)]


def bv32(c):
    return U32(c) if isinstance(c, int) else c


ORD = {'=': (lambda a, b: a == b), '<': lambda a, b: a < b, '>': lambda a, b: a > b, '<=': lambda a, b: a <= b, '>=': lambda a, b: a >= b}


def rel(op, ci, n):
    f = ORD[op]

    def post(W, st, xs, v):
        cs = [case(3, x.cp) if ci else x.cp for x in xs]
        return bool_is(v, z3.And([f(a, b) for a, b in zip(cs, cs[1:])]))

    def oracle(*xs):
        cs = [case(3, x.cp) if ci else x.cp for x in xs]
        return all(f(a, b) for a, b in zip(cs, cs[1:]))
    g = [Char(c) for c in (0, 0x41, 0x5a, 0x61, 0x62, 0x7a, 0x7f, 0x80, 0xc0, 0xe0, 0x3a3, 0x3c3, 0xffff, 0x10400, 0x10428, 0x10ffff)]

    def grid():
        import itertools
        return list(itertools.product(g if n < 3 else g[1:5], repeat=n))
    return Ob('char%s%s?' % ('-ci' if ci else '', op), ['c'] * n, post, oracle, pre=sc, grid=grid, level='proof' if n < 3 else 'bounded')


# ---------------------------------------------------------------- UTF-8
def enc(c):
    """[(condition, bytes)] the UTF-8 encoding of scalar value c"""
    x = lambda hi, lo: z3.Extract(hi, lo, c)
    b = lambda p, n, e: z3.Concat(z3.BitVecVal(p, n), e)
    return [(z3.ULE(c, U32(0x7f)), [b(0, 1, x(6, 0))]),
            (z3.And(z3.ULE(U32(0x80), c), z3.ULE(c, U32(0x7ff))), [b(6, 3, x(10, 6)), b(2, 2, x(5, 0))]),
            (z3.And(z3.ULE(U32(0x800), c), z3.ULE(c, U32(0xffff))), [b(14, 4, x(15, 12)), b(2, 2, x(11, 6)), b(2, 2, x(5, 0))]),
            (z3.And(z3.ULE(U32(0x10000), c), z3.ULE(c, U32(0x10ffff))), [b(30, 5, x(20, 18)), b(2, 2, x(17, 12)), b(2, 2, x(11, 6)), b(2, 2, x(5, 0))])]


def b04(tier="quick"):
    obs = []
    for p in CATS:
        obs.append(pred(p))
    for op in ORD:
        for ci in (False, True):
            for n in (1, 2, 3) if tier == 'thorough' else (1, 2, 3):
                obs.append(rel(op, ci, n))

    obs.append(Ob('char->integer', ['c'], lambda W, st, xs, v: int_is(v, z3.BV2Int(xs[0].cp)), lambda c: c.cp, pre=sc, grid=lambda: [(c,) for c in samples()]))

    def post(W, st, xs, v):
        return char_is(v, xs[0].bv)

    def pre(x):
        return [scalar(x.bv)]
    obs.append(Ob('integer->char', ['s'], post, lambda n: Char(n) if 0 <= n < 0xd800 or 0xe000 <= n < 0x110000 else ANY, pre=pre, grid=lambda: [(c.cp,) for c in samples()]))
    for nm, i in (('char-upcase', 2), ('char-downcase', 3)):
        def post(W, st, xs, v, i=i):
            return char_is(v, case(i, xs[0].cp))
        obs.append(Ob(nm, ['c'], post, lambda c, i=i: Char(case(i, c.cp)), pre=sc, grid=lambda: [(c,) for c in samples()]))

    def post(W, st, xs, v):
        d = ucd()[1]
        isd = table.member(xs[0].cp, list(d))
        if v.kind == 'bool':
            return [('#f only for characters that are not numeric', z3.Not(isd))] + bool_is(v, z3.BoolVal(False))
        if v.kind != 'small':
            return [('a small integer or #f', False)]
        return [('numeric', isd), ('value', v.bv == table.lookup(xs[0].cp, d, 32, default=U32(0)))]
    obs.append(Ob('digit-value', ['c'], post, lambda c: ucd()[1].get(c.cp, False), pre=sc, grid=lambda: [(c,) for c in samples()]))
    return obs
