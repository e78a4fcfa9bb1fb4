"""A06: inexact real arithmetic is IEEE 754 double arithmetic and never silently changes operation."""
import math
import z3
from vf import smt, ext, flt
from vf.oblig import Ob
from vf.data import ANY, Err, Flo
from vf.numspec import *
from .rounding import fp, double_is, bits_are, canon_bits, to_double, cdouble, F64

RNE = z3.RNE()
FOPS = {'+': (flt.add, lambda a, b: a + b), '-': (flt.sub, lambda a, b: a - b), '*': (flt.mul, lambda a, b: a * b), '/': (flt.div, None)}


def cdiv(a, b):
    if b == 0:
        if a == 0 or math.isnan(a):
            return math.nan
        return math.copysign(math.inf, a) * math.copysign(1, b)
    return a / b


def bits_of(x):
    """the bits of the double an argument converts to"""
    return x.bits if x.kind == 'double' else flt.of_int(x.bv) if x.kind == 'small' else ext.Z2D(x.i) if x.kind == 'large' else ext.Q2D(x.n, x.d)


def same_number(v, b):
    """the double with bits b; zeros of either sign are the same number"""
    if v.kind != 'double':
        return [('result is an inexact real', False)]
    vb = v.bits if not isinstance(v.bits, int) else z3.BitVecVal(v.bits, 64)
    return [('value', z3.Or(vb == canon_bits(b), z3.And(flt.iszero(vb), flt.iszero(b))))]


def notnan(*xs):
    return z3.Not(z3.Or([z3.fpIsNaN(fp(x.bits)) for x in xs if x.kind == 'double']))


def uf(name, n=1):
    S = z3.BitVecSort(64)
    return z3.Function('m_' + name, *([S] * (n + 1)))


CMP = {'<': (z3.fpLT, lambda a, b: a < b), '>': (z3.fpGT, lambda a, b: a > b), '<=': (z3.fpLEQ, lambda a, b: a <= b), '>=': (z3.fpGEQ, lambda a, b: a >= b)}


def zero(got):
    return isinstance(got, Flo) and got.v == 0


zero.label = 'a zero'


def a06(tier):
    obs = []
    # ---- the four operations
    for op, (f, c) in FOPS.items():
        c = c or cdiv
        for p in ('dd', 'ds', 'sd', 'dl', 'ld', 'dr', 'rd', 'ddd') if op != '/' else ('dd', 'ds', 'sd', 'dl', 'ld', 'dr', 'rd'):
            def post(W, st, xs, v, f=f):
                r = bits_of(xs[0])
                for x in xs[1:]:
                    r = f(r, bits_of(x))
                return same_number(v, r)

            def oracle(*xs, c=c):
                r = cdouble(xs[0])
                for x in xs[1:]:
                    r = c(r, cdouble(x))
                if r == 0:
                    return zero
                return Flo(r)

            def err(*xs, op=op):
                if op == '/' and xs[-1].kind == 'small':
                    return None
                return None
            obs.append(Ob(op, list(p), post, oracle, err=err))
    # ---- order
    for op, (f, c) in CMP.items():
        for p in ('dd', 'ds', 'sd', 'ddd'):
            def post(W, st, xs, v, f=f):
                return bool_is(v, z3.And([f(to_double(a), to_double(b)) for a, b in zip(xs, xs[1:])]))

            def oracle(*xs, c=c):
                ys = [cdouble(x) for x in xs]
                return all(c(a, b) for a, b in zip(ys, ys[1:]))
            obs.append(Ob(op, list(p), post, oracle, pre=lambda *xs: [notnan(*xs)]))
    # ---- predicates
    for nm, f, c in (('zero?', z3.fpIsZero, lambda v: v == 0), ('positive?', lambda e: z3.fpGT(e, z3.FPVal(0, F64)), lambda v: v > 0),
                     ('negative?', lambda e: z3.fpLT(e, z3.FPVal(0, F64)), lambda v: v < 0),
                     ('nan?', z3.fpIsNaN, math.isnan), ('infinite?', z3.fpIsInf, math.isinf),
                     ('finite?', lambda e: z3.Not(z3.Or(z3.fpIsNaN(e), z3.fpIsInf(e))), math.isfinite),
                     ('integer?', lambda e: z3.And(z3.Not(z3.fpIsInf(e)), z3.fpEQ(z3.fpRoundToIntegral(z3.RTZ(), e), e)), lambda v: math.isfinite(v) and v == math.trunc(v)),
                     ('rational?', lambda e: z3.Not(z3.Or(z3.fpIsNaN(e), z3.fpIsInf(e))), math.isfinite),
                     ('real?', lambda e: z3.BoolVal(True), lambda v: True), ('number?', lambda e: z3.BoolVal(True), lambda v: True),
                     ('complex?', lambda e: z3.BoolVal(True), lambda v: True),
                     ('exact?', lambda e: z3.BoolVal(False), lambda v: False), ('inexact?', lambda e: z3.BoolVal(True), lambda v: True),
                     ('exact-integer?', lambda e: z3.BoolVal(False), lambda v: False)):
        obs.append(Ob(nm, ['d'], lambda W, st, xs, v, f=f: bool_is(v, f(fp(xs[0].bits))), lambda x, c=c: c(x.v)))
    # ---- abs, max, min
    obs.append(Ob('abs', ['d'], lambda W, st, xs, v: double_is(v, z3.fpAbs(fp(xs[0].bits))), lambda x: Flo(abs(x.v))))
    for op, f, c in (('max', z3.fpGEQ, max), ('min', z3.fpLEQ, min)):
        for p in ('dd', 'ds', 'sd', 'ddd'):
            def post(W, st, xs, v, f=f):
                ys = [to_double(x) for x in xs]
                if v.kind != 'double':
                    return [('result is inexact when an argument is', False)]
                r = fp(v.bits)
                return [('value', z3.And(z3.Or([z3.fpEQ(r, y) for y in ys]), z3.And([f(r, y) for y in ys])))]
            obs.append(Ob(op, list(p), post, lambda *xs, c=c: Flo(c(cdouble(x) for x in xs)) if any(cdouble(x) != 0 for x in xs) else ANY, pre=lambda *xs: [notnan(*xs)]))
    # ---- = on doubles: equal numbers are =, clearly different ones are not
    eps = z3.FPVal(2.0 ** -52, F64)
    for p in ('dd',):
        def post(W, st, xs, v):
            a, b = (to_double(x) for x in xs)
            if v.kind != 'bool':
                return [('result is a boolean', False)]
            t = v.b == 1 if not isinstance(v.b, int) else z3.BoolVal(bool(v.b))
            return [('numbers with the same value are =', z3.Implies(z3.fpEQ(a, b), t)),
                    ('numbers further apart than the documented tolerance are not =', z3.Implies(z3.fpGT(z3.fpAbs(fp(flt.sub(xs[0].bits, xs[1].bits))), eps), z3.Not(t)))]

        def oracle(a, b):
            if a.v == b.v:
                return True
            return False if abs(a.v - b.v) > 2.0 ** -52 else ANY
        obs.append(Ob('=', list(p), post, oracle, pre=lambda *xs: [notnan(*xs)]))
    for p in ('ds', 'sd'):
        obs.append(Ob('=', list(p), lambda W, st, xs, v: bool_is(v, z3.fpEQ(*[to_double(x) for x in xs])), lambda a, b: cdouble(a) == cdouble(b), pre=lambda *xs: [notnan(*xs)]))
    # ---- the elementary functions are those of the C library, each under its own name
    one = 'exp sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh expm1 log1p erf erfc tgamma lgamma'.split()
    for nm in one + ['log']:
        for k in 'sd':
            def post(W, st, xs, v, nm=nm):
                return bits_are(v, uf(nm)(bits_of(xs[0])))

            def oracle(x, nm=nm):
                f = {'tgamma': 'gamma', }.get(nm, nm)
                try:
                    r = getattr(math, f)(cdouble(x))
                except Exception:
                    return ANY
                def near(got):
                    return isinstance(got, Flo) and (got.v == r or abs(got.v - r) <= 1e-9 * max(1, abs(r)))
                near.label = 'about %r' % r
                return near
            obs.append(Ob(nm, [k], post, oracle))
    for nm, m in (('atan', 'atan2'), ('nextafter', 'nextafter'), ('copysign', 'copysign')):
        for p in ('dd', 'sd', 'ds'):
            def post(W, st, xs, v, m=m):
                if m == 'copysign':
                    a, b = bits_of(xs[0]), bits_of(xs[1])
                    return bits_are(v, z3.Concat(z3.Extract(63, 63, b), z3.Extract(62, 0, a)))
                return bits_are(v, uf(m, 2)(bits_of(xs[0]), bits_of(xs[1])))

            def oracle(x, y, m=m):
                r = getattr(math, m)(cdouble(x), cdouble(y))
                return Flo(r)
            obs.append(Ob(nm, list(p), post, oracle))
    # ---- square root
    obs.append(Ob('sqrt', ['d'], lambda W, st, xs, v: bits_are(v, uf('sqrt')(xs[0].bits)), lambda x: Flo(math.sqrt(x.v)) if x.v >= 0 else ANY,
                  pre=lambda x: [z3.fpGEQ(fp(x.bits), z3.FPVal(0, F64))]))
    return obs
