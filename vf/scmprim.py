"""Contracts of the native procedures (the (meevax ...) libraries) for the Scheme evaluator: what A
and B prove of the C++ code, over the evaluator's values."""
from fractions import Fraction
import math
import z3
from .scm import (S, Sym, NIL, UNSPEC, EOF, Pair, Char, Str, Vec, Atom, Err, Alias, Closure, Prim, Cont, Unk, N, Z, SchemeError, Thrown,
                  Unsupported, Infeasible, Tail, lst, items, isid, base, show, synclo, same_binding)

P = {}


def prim(*names):
    def d(f):
        for n in names:
            P[n] = f
        return f
    return d


def fn(*names):
    """of the arguments alone"""
    def d(f):
        for n in names:
            P[n] = lambda run, a, f=f: f(*a)
        return f
    return d


def err(msg, *irr):
    raise SchemeError(Err(msg, lst(irr)))


# pairs and lists ------------------------------------------------------

def pair(x):
    if not isinstance(x, Pair):
        err('not a pair', x)
    return x


fn('cons')(lambda a, d, *rest: Pair(a, d))
fn('xcons')(lambda d, a: Pair(a, d))
fn('pair?')(lambda x: isinstance(x, Pair))
fn('not-pair?')(lambda x: not isinstance(x, Pair))
fn('null?')(lambda x: x is NIL)


def cxr(path):
    def f(x):
        for c in reversed(path):
            x = pair(x).car if c == 'a' else pair(x).cdr
        return x
    return f


def _cxrs(n):
    if n == 0:
        return ['']
    return [c + r for c in 'ad' for r in _cxrs(n - 1)]


for _n in (1, 2, 3, 4):
    for _p in _cxrs(_n):
        P['c%sr' % _p] = lambda run, a, f=cxr(_p): f(a[0])
for _i, _n in enumerate('first second third fourth fifth sixth seventh eighth ninth tenth'.split()):
    P[_n] = lambda run, a, f=cxr('a' + 'd' * _i): f(a[0])


@fn('set-car!')
def set_car(p, x):
    pair(p).car = x
    return UNSPEC


@fn('set-cdr!')
def set_cdr(p, x):
    pair(p).cdr = x
    return UNSPEC


fn('list')(lambda *a: lst(a))


def islist(x):
    n = 0
    while isinstance(x, Pair):
        x = x.cdr
        n += 1
        if n > 5000:
            return False
    return x is NIL


fn('list?')(islist)


def circular(x):
    seen = set()
    while isinstance(x, Pair):
        if id(x) in seen:
            return True
        seen.add(id(x))
        x = x.cdr
    return False


fn('circular-list?')(circular)
fn('dotted-list?')(lambda x: not circular(x) and not islist(x))


@fn('null-list?')
def null_list(x):
    if isinstance(x, Pair):
        return False
    if x is NIL:
        return True
    err('not a list', x)


@fn('length')
def length(x):
    if circular(x):
        err('circular list')
    return len(items(x))


fn('length+')(lambda x: False if circular(x) else len(items(x)))


@fn('append')
def append(*a):
    if not a:
        return NIL
    r = a[-1]
    for x in reversed(a[:-1]):
        r = lst(items(x), r)
    return r


def lastp(x):
    while isinstance(x.cdr, Pair):
        x = x.cdr
    return x


@fn('append!')
def append_(*a):
    a = [x for x in a[:-1] if x is not NIL] + list(a[-1:])
    if not a:
        return NIL
    for x, y in zip(a, a[1:]):
        lastp(pair(x)).cdr = y
    return a[0]


fn('reverse')(lambda x: lst(reversed(items(x))))


@fn('reverse!')
def reverse_(x):
    r = NIL
    while isinstance(x, Pair):
        n = x.cdr
        x.cdr = r
        r, x = x, n
    return r


fn('append-reverse')(lambda x, y: lst(reversed(items(x)), y))


@fn('append-reverse!')
def append_reverse_(x, r):
    while isinstance(x, Pair):
        n = x.cdr
        x.cdr = r
        r, x = x, n
    return r


def ltail(x, k):
    for _ in range(k):
        x = pair(x).cdr
    return x


fn('list-tail')(ltail)
fn('drop')(ltail)
fn('list-ref')(lambda x, k: pair(ltail(x, k)).car)


@fn('list-copy')
def list_copy(x):
    o = []
    while isinstance(x, Pair):
        o.append(x.car)
        x = x.cdr
    return lst(o, x)


def take(x, k):
    o = []
    for _ in range(k):
        o.append(pair(x).car)
        x = x.cdr
    return lst(o)


fn('take')(take)


@fn('take!')
def take_(x, k):
    if k == 0:
        return NIL
    pair(ltail(x, k - 1)).cdr = NIL
    return x


def plen(x):
    n = 0
    while isinstance(x, Pair):
        n += 1
        x = x.cdr
    return n


fn('take-right')(lambda x, k: ltail(x, plen(x) - k))
fn('drop-right')(lambda x, k: take(x, plen(x) - k))
fn('drop-right!')(lambda x, k: take_(x, plen(x) - k))
fn('last-pair')(lambda x: lastp(pair(x)))
fn('last')(lambda x: lastp(pair(x)).car)
fn('concatenate')(lambda x: append(*items(x)))
fn('concatenate!')(lambda x: append_(*items(x)))
fn('make-list')(lambda k, x=UNSPEC: lst([x] * k))
fn('cons*')(lambda *a: lst(a[:-1], a[-1]))
fn('alist-cons')(lambda k, v, x: Pair(Pair(k, v), x))
fn('alist-copy')(lambda x: lst([Pair(y.car, y.cdr) if isinstance(y, Pair) else y for y in items(x)]))


@fn('iota')
def iota(k, start=0, step=1):
    return lst([start + i * step for i in range(k)])


@fn('circular-list')
def circular_list(*a):
    r = lst(a)
    if a:
        lastp(r).cdr = r
    return r


def mem(test):
    def f(run, a):
        x, l = a
        while isinstance(l, Pair):
            if test(run, x, l.car):
                return l
            l = l.cdr
        return False
    return f


def ass(test):
    def f(run, a):
        x, l = a
        while isinstance(l, Pair):
            if test(run, x, pair(l.car).car):
                return l.car
            l = l.cdr
        return False
    return f


# equivalence ------------------------------------------------------------

def isnum(x):
    return isinstance(x, (int, Fraction, float, N, Z)) and not isinstance(x, bool)


def eqv(run, a, b):
    if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef):
        if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
            return run.cond(a == b)
        return False
    if a is b:
        return True
    if isinstance(a, Atom) and isinstance(b, Atom):
        return run.same(a, b)
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
        return a == b
    if isinstance(a, float) and isinstance(b, float):
        return a == b
    if isnum(a) and isnum(b):
        if isinstance(a, float) or isinstance(b, float):
            return False
        return num_eq(run, a, b)
    if isinstance(a, Char) and isinstance(b, Char):
        return a.c == b.c
    if isinstance(a, Alias) and isinstance(b, Alias):
        return same_binding(a.name, a.scope, b.name, b.scope)
    if isinstance(a, Str) and isinstance(b, Str) and not a.cs and not b.cs:
        return True
    return False


def equal(run, a, b):
    if isinstance(a, Pair) and isinstance(b, Pair):
        while isinstance(a, Pair) and isinstance(b, Pair):
            if not equal(run, a.car, b.car):
                return False
            a, b = a.cdr, b.cdr
        return equal(run, a, b)
    if isinstance(a, Str) and isinstance(b, Str):
        return len(a.cs) == len(b.cs) and all(eqv(run, chr_(x), chr_(y)) for x, y in zip(a.cs, b.cs))
    if isinstance(a, Vec) and isinstance(b, Vec):
        return a.kind == b.kind and len(a.xs) == len(b.xs) and all(equal(run, x, y) for x, y in zip(a.xs, b.xs))
    return eqv(run, a, b)


def chr_(x):
    return Char(x) if isinstance(x, str) else x


prim('eq?', 'eqv?')(lambda run, a: eqv(run, a[0], a[1]))
prim('equal?')(lambda run, a: equal(run, a[0], a[1]))
P['memq'] = P['memv'] = mem(eqv)
P['assq'] = P['assv'] = ass(eqv)
prim('not')(lambda run, a: (z3.Not(a[0]) if isinstance(a[0], z3.BoolRef) else a[0] is False))
fn('boolean?')(lambda x: isinstance(x, (bool, z3.BoolRef)))
fn('procedure?')(lambda x: isinstance(x, (Closure, Prim, Cont, Unk)))
fn('symbol?')(lambda x: isinstance(x, Sym))
fn('string?')(lambda x: isinstance(x, Str))
fn('char?')(lambda x: isinstance(x, Char))
fn('vector?')(lambda x: isinstance(x, Vec) and x.kind == '')
fn('u8vector?')(lambda x: isinstance(x, Vec) and x.kind == 'u8')
fn('eof-object?')(lambda x: x is EOF)
fn('eof-object')(lambda: EOF)
fn('identifier?')(isid)
fn('syntactic-closure?')(lambda x: isinstance(x, Alias))
fn('identifier->symbol')(base)


fn('make-syntactic-closure')(lambda env, free, form: synclo(env, form))
P['error-object?'] = lambda run, a: isinstance(a[0], Err)


@prim('make-error', 'error')
def error_(run, a):
    raise SchemeError(Err(a[0], lst(a[1:])))


@prim('throw')
def throw(run, a):
    raise Thrown(a[0])


# numbers ------------------------------------------------------------------

def norm(q):
    return int(q) if isinstance(q, Fraction) and q.denominator == 1 else q


def t(x):
    """(num, den) terms; den positive"""
    if isinstance(x, N):
        return x.num, (1 if x.den is None else x.den)
    if isinstance(x, Fraction):
        return z3.IntVal(x.numerator), x.denominator
    if isinstance(x, int) and not isinstance(x, bool):
        return z3.IntVal(x), 1
    if isinstance(x, Z):
        raise Unsupported('arithmetic on bits')
    err('not a number', x)


def mk(num, den=1):
    num = z3.simplify(num) if not isinstance(num, int) else z3.IntVal(num)
    if isinstance(den, int) and den == 1:
        return num.as_long() if z3.is_int_value(num) else N(num)
    if not isinstance(den, int):
        den = z3.simplify(den)
        if z3.is_int_value(den):
            den = den.as_long()
    if isinstance(den, int) and z3.is_int_value(num):
        return norm(Fraction(num.as_long(), den))
    if isinstance(den, int) and den == 1:
        return N(num)
    return N(num, den)


def conc(*xs):
    return all(isinstance(x, (int, Fraction, float)) and not isinstance(x, bool) for x in xs)


def add2(a, b):
    if conc(a, b):
        return norm(a + b)
    if conc(a) and a == 0 and not isinstance(a, float):
        return b
    if conc(b) and b == 0 and not isinstance(b, float):
        return a
    (n, d), (m, e) = t(a), t(b)
    if d is e or (isinstance(d, int) and isinstance(e, int) and d == e) or (not isinstance(d, int) and not isinstance(e, int) and d.eq(e)):
        return mk(n + m, d)
    return mk(n * e + m * d, d * e)


def neg(a):
    if conc(a):
        return -a
    n, d = t(a)
    return mk(-n, d)


def mul2(a, b):
    if conc(a, b):
        return norm(a * b)
    (n, d), (m, e) = t(a), t(b)
    return mk(n * m, d if isinstance(e, int) and e == 1 else e if isinstance(d, int) and d == 1 else d * e)


def inv(run, a):
    if conc(a):
        if a == 0 and not isinstance(a, float):
            err('division by zero')
        return 1.0 / a if isinstance(a, float) else norm(Fraction(1) / a)
    n, d = t(a)
    if run.cond(n == 0):
        err('division by zero')
    d = d if not isinstance(d, int) else z3.IntVal(d)
    if run.cond(n > 0):
        return mk(d, n)
    return mk(-d, -n)


@prim('+')
def plus(run, a):
    r = 0
    for x in a:
        if not isnum(x):
            err('not a number', x)
        r = add2(r, x)
    return r


@prim('*')
def times(run, a):
    r = 1
    for x in a:
        r = mul2(r, x)
    return r


@prim('-')
def minus(run, a):
    if len(a) == 1:
        return neg(a[0])
    r = a[0]
    for x in a[1:]:
        r = add2(r, neg(x))
    return r


@prim('/')
def div(run, a):
    if len(a) == 1:
        return inv(run, a[0])
    r = a[0]
    for x in a[1:]:
        if conc(r, x) and not (isinstance(r, float) or isinstance(x, float)):
            if x == 0:
                err('division by zero')
            r = norm(Fraction(r) / x)
        else:
            r = mul2(r, inv(run, x))
    return r


def lt(a, b):
    (n, d), (m, e) = t(a), t(b)
    return n * e < m * d


def num_eq(run, a, b):
    if conc(a, b):
        return a == b
    if isinstance(a, Z) or isinstance(b, Z):
        return run.cond(zeq(toz(a), toz(b)))
    (n, d), (m, e) = t(a), t(b)
    return run.cond(n * e == m * d)


def chain(f):
    def g(run, a):
        for x, y in zip(a, a[1:]):
            if not f(run, x, y):
                return False
        return True
    return g


P['='] = chain(num_eq)
P['<'] = chain(lambda run, a, b: a < b if conc(a, b) else run.cond(lt(a, b)))
P['>'] = chain(lambda run, a, b: a > b if conc(a, b) else run.cond(lt(b, a)))
P['<='] = chain(lambda run, a, b: a <= b if conc(a, b) else not_pos(run, a) if isinstance(a, Z) and b == 0 else run.cond(z3.Not(lt(b, a))))
P['>='] = chain(lambda run, a, b: a >= b if conc(a, b) else run.cond(z3.Not(lt(a, b))))


def not_pos(run, z):
    return run.cond(z3.Or(z.neg, zzero(z)))


@prim('zero?')
def zero(run, a):
    x = a[0]
    if isinstance(x, Z):
        return run.cond(zzero(x))
    return num_eq(run, x, 0)


@prim('positive?')
def positive(run, a):
    return P['<'](run, [0, a[0]])


@prim('negative?')
def negative(run, a):
    if isinstance(a[0], Z):
        return run.cond(a[0].neg)
    return P['<'](run, [a[0], 0])


@prim('abs', 'magnitude')
def abs_(run, a):
    return neg(a[0]) if negative(run, a) else a[0]


def exactp(x):
    return isinstance(x, (int, Fraction, N, Z)) and not isinstance(x, bool)


fn('exact?')(exactp)
fn('inexact?')(lambda x: isinstance(x, float))
fn('number?', 'complex?')(isnum)
fn('exact')(lambda x: x if exactp(x) else norm(Fraction(x)))
fn('inexact')(lambda x: float(x) if conc(x) else err_unsup('inexact'))
fn('exact-integer?')(lambda x: isinstance(x, (int, Z)) and not isinstance(x, bool) or (isinstance(x, N) and x.den is None))
fn('integer?')(lambda x: (isinstance(x, (int, Z)) and not isinstance(x, bool)) or (isinstance(x, N) and x.den is None) or (isinstance(x, float) and x.is_integer()))
fn('rational?', 'real?')(isnum)


def err_unsup(w):
    raise Unsupported('symbolic ' + w)


def cached(run, key, make):
    d = run.world.setdefault('q', {})
    if key not in d:
        d[key] = make()
    return d[key]


def floordiv(run, n, d):
    """floor of n/d, d > 0 terms"""
    n = z3.simplify(n)
    d = d if not isinstance(d, int) else z3.IntVal(d)
    if z3.is_int_value(d) and d.as_long() == 1:
        return n

    def make():
        q = run.freshint('floor')
        run.assume(d * q <= n)
        run.assume(n < d * q + d)
        return q
    return cached(run, ('f', n.sexpr(), z3.simplify(d).sexpr()), make)


def ceildiv(run, n, d):
    n = z3.simplify(n)
    d = d if not isinstance(d, int) else z3.IntVal(d)
    if z3.is_int_value(d) and d.as_long() == 1:
        return n

    def make():
        q = run.freshint('ceil')
        run.assume(d * q >= n)
        run.assume(n > d * q - d)
        return q
    return cached(run, ('c', n.sexpr(), z3.simplify(d).sexpr()), make)


@prim('floor')
def floor(run, a):
    if conc(a[0]):
        return math.floor(a[0]) if not isinstance(a[0], float) else float(math.floor(a[0]))
    n, d = t(a[0])
    return mk(floordiv(run, n, d))


@prim('ceiling')
def ceiling(run, a):
    if conc(a[0]):
        return math.ceil(a[0]) if not isinstance(a[0], float) else float(math.ceil(a[0]))
    n, d = t(a[0])
    return mk(ceildiv(run, n, d))


@prim('truncate')
def truncate(run, a):
    return floor(run, a) if not negative(run, a) else ceiling(run, a)


@prim('round')
def round_(run, a):
    if conc(a[0]):
        return round(a[0]) if not isinstance(a[0], float) else float(round(a[0]))
    n, d = t(a[0])
    d = d if not isinstance(d, int) else z3.IntVal(d)
    if z3.is_int_value(d) and d.as_long() == 1:
        return a[0]

    def make():
        q = run.freshint('round')
        h = run.freshint('half')
        run.assume(2 * (n - d * q) <= d)
        run.assume(2 * (n - d * q) >= -d)
        run.assume(z3.Implies(z3.Or(2 * (n - d * q) == d, 2 * (n - d * q) == -d), q == 2 * h))
        return q
    return mk(cached(run, ('r', z3.simplify(n).sexpr(), z3.simplify(d).sexpr()), make))


def intargs(a, b):
    (n, d), (m, e) = t(a), t(b)
    if not (isinstance(d, int) and d == 1 and isinstance(e, int) and e == 1):
        err('not an integer')
    return n, m


def nonzero(run, b):
    if num_eq(run, b, 0):
        err('division by zero')


@prim('modulo', 'floor-remainder')
def modulo(run, a):
    x, y = a
    nonzero(run, y)
    if conc(x, y):
        return x - y * math.floor(Fraction(x) / Fraction(y))
    n, d = intargs(x, y)
    q = floordiv(run, n, d) if run.cond(d > 0) else floordiv(run, -n, -d)
    return mk(n - d * q)


def trunc(run, x, y):
    n, d = intargs(x, y)
    if not run.cond(d > 0):
        n, d = z3.simplify(-n), z3.simplify(-d)
    return ceildiv(run, n, d) if run.cond(n < 0) else floordiv(run, n, d)


@prim('quotient', 'truncate-quotient')
def quotient(run, a):
    x, y = a
    nonzero(run, y)
    if conc(x, y):
        return math.trunc(Fraction(x) / Fraction(y))
    return mk(trunc(run, x, y))


@prim('remainder', 'truncate-remainder')
def remainder(run, a):
    x, y = a
    nonzero(run, y)
    if conc(x, y):
        return x - y * math.trunc(Fraction(x) / Fraction(y))
    n, d = intargs(x, y)
    return mk(n - d * trunc(run, x, y))


@prim('exact-integer-square-root')
def eisr(run, a):
    x = a[0]
    if conc(x):
        r = math.isqrt(x)
        return Pair(r, x - r * r)
    n, _ = t(x)
    s = run.freshint('isqrt')
    run.assume(z3.And(s >= 0, s * s <= n, n < (s + 1) * (s + 1)))
    return Pair(N(s), mk(n - s * s))


@prim('odd?')
def odd(run, a):
    x = a[0]
    if isinstance(x, Z):
        return run.cond(x.bit(z3.IntVal(0)))
    if conc(x):
        return x % 2 == 1
    n, _ = t(x)
    return run.cond(n % 2 == 1)


P['even?'] = lambda run, a: not odd(run, a)


def minmax(less):
    def f(run, a):
        r = a[0]
        for x in a[1:]:
            if P['<'](run, [x, r]) == less:
                r = x
        return r
    return f


P['min'] = minmax(True)
P['max'] = minmax(False)
P['number->string'] = lambda run, a: Str(str(a[0]))

# bits -------------------------------------------------------------------------
# an integer as the function from bit positions (>= 0) to bits, with its sign


def toz(x):
    if isinstance(x, Z):
        return x
    if isinstance(x, int) and not isinstance(x, bool):
        if x == 0 or x == -1:
            return Z(lambda i: z3.BoolVal(x < 0), z3.BoolVal(x < 0))
        w = x.bit_length()
        return Z(lambda i: z3.If(i < w, z3.Or(*[i == j for j in range(w) if (x >> j) & 1] or [z3.BoolVal(False)]), z3.BoolVal(x < 0)), z3.BoolVal(x < 0))
    raise Unsupported('bits of %r' % (x,))


def zeq(a, b):
    i = z3.Int('i!')
    return z3.And(a.neg == b.neg, z3.ForAll([i], z3.Implies(i >= 0, a.bit(i) == b.bit(i))))


def zzero(a):
    i = z3.Int('i!')
    return z3.And(z3.Not(a.neg), z3.ForAll([i], z3.Implies(i >= 0, z3.Not(a.bit(i)))))


def ints(*xs):
    return all(isinstance(x, int) and not isinstance(x, bool) for x in xs)


def bitop(pyf, zf, unit):
    def f(run, a):
        r = unit
        for x in a:
            if ints(r, x):
                r = pyf(r, x)
            else:
                p, q = toz(r), toz(x)
                r = Z(lambda i, p=p, q=q: zf(p.bit(i), q.bit(i)), zf(p.neg, q.neg))
        return r
    return f


P['bitwise-and'] = bitop(lambda a, b: a & b, z3.And, -1)
P['bitwise-ior'] = bitop(lambda a, b: a | b, z3.Or, 0)
P['bitwise-xor'] = bitop(lambda a, b: a ^ b, z3.Xor, 0)


@prim('bitwise-not')
def bitnot(run, a):
    if ints(a[0]):
        return ~a[0]
    p = toz(a[0])
    return Z(lambda i: z3.Not(p.bit(i)), z3.Not(p.neg))


@prim('bit-shift')
def shift(run, a):
    x, k = a
    if ints(x, k):
        return x << k if k >= 0 else x >> -k
    p = toz(x)
    kt = t(k)[0]
    return Z(lambda i: z3.And(i - kt >= 0, p.bit(i - kt)), p.neg)


@prim('bit-count')
def bitcount(run, a):
    if ints(a[0]):
        return bin(a[0] if a[0] >= 0 else ~a[0]).count('1')
    raise Unsupported('bit-count')


@prim('bit-width')
def bitwidth(run, a):
    if ints(a[0]):
        return (a[0] if a[0] >= 0 else ~a[0]).bit_length()
    raise Unsupported('bit-width')


# characters, strings, symbols, vectors ------------------------------------------

def s_of(x):
    if not isinstance(x, Str):
        err('not a string', x)
    return x


fn('string')(lambda *a: Str([unchr(x) for x in a]))


def unchr(x):
    return x.c if isinstance(x, Char) else x


fn('string-length')(lambda s: len(s_of(s).cs))
fn('string->list')(lambda s, b=0, e=None: lst([chr_(c) for c in s_of(s).cs[b:e]]))
fn('list->string')(lambda x: Str([unchr(y) for y in items(x)]))
fn('string-append')(lambda *a: Str([c for s in a for c in s.cs]))
fn('string-copy')(lambda s, b=0, e=None: Str(s_of(s).cs[b:e]))
fn('string->symbol')(lambda s: S(''.join(s.cs)))
fn('symbol->string')(lambda s: Str(base(s).name))
fn('string->vector')(lambda s, b=0, e=None: Vec([chr_(c) for c in s.cs[b:e]]))
fn('vector->string')(lambda s, b=0, e=None: Str([unchr(c) for c in s.xs[b:e]]))
prim('string=?')(lambda run, a: all(equal(run, x, y) for x, y in zip(a, a[1:])))
fn('char->integer')(lambda c: ord(c.c))
fn('integer->char')(lambda c: Char(chr(c)))
fn('vector')(lambda *a: Vec(a))
fn('make-vector')(lambda k, x=UNSPEC: Vec([x] * k))
fn('vector->list')(lambda v, b=0, e=None: lst(v.xs[b:e]))
fn('list->vector')(lambda x: Vec(items(x)))


@fn('vector-length', 'u8vector-length')
def vlen(v):
    if not isinstance(v, Vec):
        err('not a vector', v)
    return len(v.xs)


@fn('vector-ref', 'u8vector-ref')
def vref(v, k):
    if not isinstance(v, Vec) or not 0 <= k < len(v.xs):
        err('index')
    return v.xs[k]


@fn('vector-set!', 'u8vector-set!')
def vset(v, k, x):
    if not isinstance(v, Vec) or not 0 <= k < len(v.xs):
        err('index')
    v.xs[k] = x
    return UNSPEC


fn('vector-copy', 'u8vector-copy')(lambda v, b=0, e=None: Vec(v.xs[b:e], v.kind))


@fn('vector-copy!', 'u8vector-copy!')
def vcopy_(v, at, w, b=0, e=None):
    x = w.xs[b:e]
    if at + len(x) > len(v.xs):
        err('range')
    v.xs[at:at + len(x)] = x
    return UNSPEC


fn('u8vector')(lambda *a: Vec(a, 'u8'))
fn('make-u8vector')(lambda k, x=0: Vec([x] * k, 'u8'))
fn('box')(lambda x: Vec([x], 'box'))


# ports and the system: calls are recorded -----------------------------------------

class Port:
    def __init__(self, name, inp, out):
        self.name, self.inp, self.out = name, inp, out

    def __repr__(self):
        return '#,(port %s)' % self.name


def traced(n, nres=None):
    def f(run, a):
        run.trace.append((n,) + tuple(a))
        return Atom('%s!%d' % (n, len(run.trace)))
    P[n] = f


for _n in ('get-char peek-char get-char-ready? get-line get-string get-u8 peek-u8 get-u8-ready? put-char put-string put-u8 put-u8vector write write-simple read '
           'flush close open? emergency-exit load environment eval delete-file file-exists? get-u8vector').split():
    traced(_n)


def opened(n, i, o):
    def f(run, a):
        run.trace.append((n,) + tuple(a))
        return Port('%s!%d' % (n, len(run.trace)), i, o)
    P[n] = f


for _n in ('open-input-file', 'open-binary-input-file'):
    opened(_n, True, False)
for _n in ('open-output-file', 'open-binary-output-file'):
    opened(_n, False, True)
STDIN, STDOUT, STDERR = Port('stdin', True, False), Port('stdout', False, True), Port('stderr', False, True)
fn('standard-input-port')(lambda: STDIN)
fn('standard-output-port')(lambda: STDOUT)
fn('standard-error-port')(lambda: STDERR)
fn('input-port?')(lambda x: isinstance(x, Port) and x.inp)
fn('output-port?')(lambda x: isinstance(x, Port) and x.out)
fn('port?')(lambda x: isinstance(x, Port))
fn('interaction-environment')(lambda: Atom('interaction-environment'))


def machine(repo):
    from . import scm
    M = scm.Machine(repo, P)

    def kset(run, a):
        M.handler = a[0]
        return UNSPEC
    M.prims = dict(P)
    M.prims['kernel-exception-handler-set!'] = kset
    return M
