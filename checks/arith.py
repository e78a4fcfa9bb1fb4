"""A01 exact arithmetic, A02 exact comparison, A03 integer division."""
import itertools
from fractions import Fraction
import math
import z3
from vf import smt, ext
from vf.oblig import Ob
from vf.data import ANY, Err, norm, src
from vf.numspec import *

PAIRS = [a + b for a in 'slr' for b in 'slr']


# ---------------------------------------------------------------- A01
def add(a, b):
    (n1, d1), (n2, d2) = a, b
    return n1 * d2 + n2 * d1, d1 * d2


def sub(a, b):
    (n1, d1), (n2, d2) = a, b
    return n1 * d2 - n2 * d1, d1 * d2


def mul(a, b):
    (n1, d1), (n2, d2) = a, b
    return n1 * n2, d1 * d2


def div(a, b):
    (n1, d1), (n2, d2) = a, b
    return n1 * d2, d1 * n2


OPS = {'+': (add, lambda a, b: a + b), '-': (sub, lambda a, b: a - b), '*': (mul, lambda a, b: a * b), '/': (div, lambda a, b: Fraction(a) / b)}


def fold(op, xs):
    f = OPS[op][0]
    r = nd(xs[0])
    for x in xs[1:]:
        r = f(r, nd(x))
    return r


def cfold(op, xs):
    f = OPS[op][1]
    r = xs[0]
    for x in xs[1:]:
        if op == '/' and x == 0:
            return Err()
        r = f(r, x)
    return norm(r)


def arith_ob(op, kinds):
    def args_of(xs):
        if op in '-/' and len(xs) == 1:
            from vf.world import Val
            return [Val('small', None, i=z3.IntVal(0 if op == '-' else 1))] + list(xs)
        return list(xs)

    def post(W, st, xs, v):
        if not xs:
            return exact_is(v, z3.IntVal(0 if op == '+' else 1))
        N, D = fold(op, args_of(xs))
        return exact_is(v, N, D)

    def oracle(*xs):
        if not xs:
            return 0 if op == '+' else 1
        xs = list(xs)
        if op in '-/' and len(xs) == 1:
            xs = [0 if op == '-' else 1] + xs
        return cfold(op, xs)

    def err(*xs):
        if op != '/':
            return None
        zs = [x for x in (args_of(xs)[1:])]
        return z3.Or([nd(x)[0] == 0 for x in zs]) if zs else None
    return Ob(op, list(kinds), post, oracle, err=err)


def a01(tier):
    obs = []
    for op in '+-*/':
        if op in '+*':
            obs.append(arith_ob(op, ''))
        for k in 'slr':
            obs.append(arith_ob(op, k))
        for p in PAIRS:
            obs.append(arith_ob(op, p))
        for t in ('sss', 'lll', 'sls') + (('lsl', 'ssss') if tier == 'thorough' else ()):
            if op == '/' or (op, t) == ('*', 'sss'):
                continue
            obs.append(arith_ob(op, t))
    for k in 'slr':
        def post(W, st, xs, v):
            n, d = nd(xs[0])
            return exact_is(v, z3.If(n < 0, -n, n), d)
        obs.append(Ob('abs', [k], post, lambda x: norm(abs(x))))

        def post(W, st, xs, v):
            n, d = nd(xs[0])
            return int_is(v, n)
        obs.append(Ob('numerator', [k], post, lambda x: Fraction(x).numerator))

        def post(W, st, xs, v):
            n, d = nd(xs[0])
            return int_is(v, d)
        obs.append(Ob('denominator', [k], post, lambda x: Fraction(x).denominator))
    return obs


# ---------------------------------------------------------------- A02
def lt(a, b):
    (n1, d1), (n2, d2) = nd(a), nd(b)
    return n1 * d2 < n2 * d1


def eq(a, b):
    (n1, d1), (n2, d2) = nd(a), nd(b)
    return n1 * d2 == n2 * d1


REL = {'=': (eq, lambda a, b: a == b), '<': (lt, lambda a, b: a < b), '>': (lambda a, b: lt(b, a), lambda a, b: a > b),
       '<=': (lambda a, b: z3.Not(lt(b, a)), lambda a, b: a <= b), '>=': (lambda a, b: z3.Not(lt(a, b)), lambda a, b: a >= b)}


def rel_ob(op, kinds):
    def post(W, st, xs, v):
        f = REL[op][0]
        return bool_is(v, z3.And([f(a, b) for a, b in zip(xs, xs[1:])]))

    def oracle(*xs):
        return all(REL[op][1](a, b) for a, b in zip(xs, xs[1:]))
    return Ob(op, list(kinds), post, oracle)


def pred_ob(name, k, cond, oracle):
    def post(W, st, xs, v):
        return bool_is(v, cond(xs[0]))
    return Ob(name, [k], post, oracle)


def is_int(x):
    return z3.BoolVal(x.kind in INT)


def a02(tier):
    obs = []
    for op in REL:
        for k in 'slr':
            obs.append(rel_ob(op, k))
        for p in PAIRS:
            obs.append(rel_ob(op, p))
        for t in ('sss', 'slr', 'rsl', 'lll', 'lrs', 'rrr') if tier == 'thorough' else ('sss', 'lsl', 'srs'):
            obs.append(rel_ob(op, t))
        if tier == 'thorough':
            obs.append(rel_ob(op, 'ssss'))
    for k in 'slr':
        obs.append(pred_ob('zero?', k, lambda x: nd(x)[0] == 0, lambda x: x == 0))
        obs.append(pred_ob('positive?', k, lambda x: nd(x)[0] > 0, lambda x: x > 0))
        obs.append(pred_ob('negative?', k, lambda x: nd(x)[0] < 0, lambda x: x < 0))
        for p in ('number?', 'complex?', 'real?', 'rational?', 'exact?', 'finite?'):
            obs.append(pred_ob(p, k, lambda x: z3.BoolVal(True), lambda x: True))
        for p in ('inexact?', 'infinite?', 'nan?'):
            obs.append(pred_ob(p, k, lambda x: z3.BoolVal(False), lambda x: False))
        for p in ('integer?', 'exact-integer?'):
            obs.append(pred_ob(p, k, is_int, lambda x: not isinstance(x, Fraction)))
    for k in 'sl':
        obs.append(pred_ob('even?', k, lambda x: smt.tqr(x.i, z3.IntVal(2))[1] == 0, lambda x: x % 2 == 0))
        obs.append(pred_ob('odd?', k, lambda x: smt.tqr(x.i, z3.IntVal(2))[1] != 0, lambda x: x % 2 == 1))
    # = implies eqv? and equal? (one representation per exact value), and conversely
    for p in PAIRS:
        for nm in ('eqv?', 'equal?'):
            def post(W, st, xs, v):
                return bool_is(v, eq(*xs))
            obs.append(Ob(nm, list(p), post, lambda a, b: a == b))
    for op in ('max', 'min'):
        for p in list('slr') + PAIRS + ['sss', 'lsr']:
            def post(W, st, xs, v, op=op):
                if v.kind not in EXACT:
                    return [('result is an exact number', False)]
                le = (lambda a, b: z3.Not(lt(b, a)))
                c = z3.And([le(x, v) if op == 'max' else le(v, x) for x in xs])
                m = z3.Or([eq(x, v) for x in xs])
                return [('bound', c), ('one of the arguments', m)] + canonical(v)
            obs.append(Ob(op, list(p), post, (lambda *xs: norm(max(xs))) if op == 'max' else (lambda *xs: norm(min(xs)))))
    return obs


# ---------------------------------------------------------------- A03
def qspec(x, y, q):
    """q is x/y truncated toward zero"""
    r = x - q * y
    return z3.And(smt.absi(r) < smt.absi(y), z3.Implies(x >= 0, r >= 0), z3.Implies(x <= 0, r <= 0))


def tq(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def a03(tier):
    obs = []
    IP = ['ss', 'sl', 'ls', 'll']
    zero = lambda x, y: y.i == 0
    for p in IP:
        def post(W, st, xs, v):
            x, y = xs[0].i, xs[1].i
            if v.kind not in INT:
                return [('result is an exact integer', False)]
            return [('quotient truncates toward zero', qspec(x, y, v.i))] + canonical(v)
        obs.append(Ob('quotient', list(p), post, lambda a, b: Err() if b == 0 else tq(a, b), err=zero))

        def post(W, st, xs, v):
            x, y = xs[0].i, xs[1].i
            if v.kind not in INT:
                return [('result is an exact integer', False)]
            q, r = smt.tqr(x, y)
            return [('remainder of the truncated quotient', v.i == r)] + canonical(v)
        obs.append(Ob('remainder', list(p), post, lambda a, b: Err() if b == 0 else a - b * tq(a, b), err=zero))

        def post(W, st, xs, v):
            x, y = xs[0].i, xs[1].i
            if v.kind not in INT:
                return [('result is an exact integer', False)]
            q, r = smt.tqr(x, y)
            return [('modulo has the sign of the divisor', v.i == z3.If(z3.And(r != 0, (r < 0) != (y < 0)), r + y, r))] + canonical(v)
        obs.append(Ob('modulo', list(p), post, lambda a, b: Err() if b == 0 else a - b * (a // b), err=zero))
    return obs


def gcd_obs(tier):
    from checks import contracts as C
    import math
    obs = []
    for p in ('ss', 'sl', 'ls', 'll'):
        cell = {}

        def setup(W, cell=cell):
            C.gcd_contract(lambda W: cell['y'])(W)

        def pre(x, y, cell=cell):
            cell['y'] = y.i
            return None

        def post(W, st, xs, v):
            x, y = xs[0].i, xs[1].i
            q, r = smt.tqr(x, y)
            # Euclid: gcd(x, 0) = |x|, gcd(x, y) = gcd(y, x rem y)
            want = z3.If(y == 0, smt.absi(x), C.GCDF(y, r))
            return int_is(v, want)
        obs.append(Ob('gcd', list(p), post, lambda a, b: math.gcd(a, b), pre=pre, setup=setup, call=C.GCDNAME, name='number::gcd ' + p))
    return obs


def gcd_nary(tier):
    from checks import contracts as C
    import math
    obs = []
    for p in ('', 's', 'l', 'ss', 'sl', 'ls', 'll', 'sss', 'lsl'):
        def post(W, st, xs, v):
            if not xs:
                return int_is(v, z3.IntVal(0))
            if len(xs) == 1:
                return int_is(v, smt.absi(xs[0].i))
            r = xs[0].i
            for x in xs[1:]:
                r = C.GCDF(r, x.i)
            return int_is(v, r)
        obs.append(Ob('gcd', list(p), post, lambda *xs: math.gcd(*xs), setup=C.gcd_contract()))
    for p in ('', 's', 'l', 'ss', 'sl', 'ls', 'll'):
        cell = {}

        def pre(*xs, cell=cell):
            # the greatest common divisor divides both arguments (definition of GCD)
            if len(xs) < 2:
                return None
            x, y = xs[0].i, xs[1].i
            g = C.GCDF(x, y)
            a, b = smt.fresh_int('cofactor'), smt.fresh_int('cofactor')
            cell['k'] = a * y
            return C.gcd_facts(x, y) + [x == g * a, y == g * b]

        def post(W, st, xs, v, cell=cell):
            if not xs:
                return int_is(v, z3.IntVal(1))
            if len(xs) == 1:
                return int_is(v, smt.absi(xs[0].i))
            x, y = xs[0].i, xs[1].i
            if v.kind not in INT:
                return [('result is an exact integer', False)]
            g = C.GCDF(x, y)
            k = cell['k']
            return [('lcm = |x y / gcd|, lcm of zero is zero', z3.If(z3.Or(x == 0, y == 0), v.i == 0, v.i == smt.absi(k)))] + canonical(v)
        obs.append(Ob('lcm', list(p), post, lambda *xs: math.lcm(*xs), pre=pre, setup=C.both(C.gcd_contract(), C.quotient_contract([lambda W, cell=cell: cell['k']]))))
    return obs


def isqrt_obs(tier):
    import math
    obs = []
    for k in 'sl':
        def post(W, st, xs, v):
            if v.kind != 'pair':
                return [('result is a pair', False)]
            out = []
            (s1, a), = W.decode(st, v.car_w)
            (s2, b), = W.decode(st, v.cdr_w)
            if a.kind not in INT or b.kind not in INT:
                return [('results are exact integers', False)]
            x = xs[0].i
            return [('s^2 <= n', z3.And(a.i >= 0, a.i * a.i <= x)), ('n < (s+1)^2', x < (a.i + 1) * (a.i + 1)), ('remainder', b.i == x - a.i * a.i)] + canonical(a) + canonical(b)
        from vf.data import Pair
        obs.append(Ob('exact-integer-square-root', [k], post, lambda x: ANY if x < 0 else Pair(math.isqrt(x), x - math.isqrt(x) ** 2), pre=lambda x: x.i >= 0))
    return obs


_a03 = a03


def a03(tier):
    return _a03(tier) + gcd_obs(tier) + gcd_nary(tier) + isqrt_obs(tier)
