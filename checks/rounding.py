"""A05: rounding, exactness conversion, exact powers."""
import math
import struct
from fractions import Fraction
import z3
from vf import smt, ext, flt
from vf.oblig import Ob, FLOATS
from vf.data import ANY, Err, Flo, norm
from vf.numspec import *

F64 = z3.Float64()


def fp(bits):
    if isinstance(bits, int):
        bits = z3.BitVecVal(bits, 64)
    return z3.fpBVToFP(bits, F64)


def cfloat(x):
    return x.v if isinstance(x, Flo) else x


def double_is(v, e):
    """the result is the double e (as a value: one NaN)"""
    if v.kind != 'double':
        return [('result is an inexact real', False)]
    return [('value', fp(v.bits) == e)]


def canon_bits(b):
    b = b if not isinstance(b, int) else z3.BitVecVal(b, 64)
    return z3.If(flt.isnan(b), z3.BitVecVal(0x7ff8 << 48, 64), b)


def bits_are(v, b):
    if v.kind != 'double':
        return [('result is an inexact real', False)]
    vb = v.bits if not isinstance(v.bits, int) else z3.BitVecVal(v.bits, 64)
    return [('value', vb == canon_bits(b))]


def to_double(x):
    """an exact argument as the double it converts to (FP term)"""
    if x.kind == 'double':
        return fp(x.bits)
    if x.kind == 'small':
        return fp(flt.of_int(x.bv))
    if x.kind == 'large':
        return fp(ext.Z2D(x.i))
    if x.kind == 'ratio':
        return fp(ext.Q2D(x.n, x.d))
    raise ValueError(x.kind)


def z2d(n):
    """mpz_get_d: truncation"""
    if abs(n) < 1 << 53:
        return float(n)
    k = abs(n).bit_length() - 53
    r = float(abs(n) >> k) * 2.0 ** k if k < 970 else math.inf
    return -r if n < 0 else r


def q2d(q):
    """mpq_get_d: truncation"""
    q = Fraction(q)
    if q == 0:
        return 0.0
    a = abs(q)
    f = float(a)
    if Fraction(f) > a:
        f = math.nextafter(f, 0)
    return -f if q < 0 else f


def cdouble(x):
    if isinstance(x, Flo):
        return x.v
    if isinstance(x, Fraction) and x.denominator > 1:
        return q2d(x)
    return z2d(int(x))


RM = {'floor': z3.RTN(), 'ceiling': z3.RTP(), 'truncate': z3.RTZ(), 'round': z3.RNE()}


def cround(nm, x):
    return {'floor': math.floor, 'ceiling': math.ceil, 'truncate': math.trunc, 'round': round}[nm](x)


def oround(nm, x):
    if isinstance(x, Flo):
        v = x.v
        if math.isinf(v) or math.isnan(v):
            return x
        return Flo(math.copysign(float(cround(nm, v)), v))
    return cround(nm, x)


def a05(tier):
    obs = []
    for nm in RM:
        for k in 'slrd':
            def post(W, st, xs, v, nm=nm):
                x = xs[0]
                if x.kind == 'double':
                    return double_is(v, z3.fpRoundToIntegral(RM[nm], fp(x.bits)))
                n, d = nd(x)
                if v.kind not in INT:
                    return [('result is an exact integer', False)]
                q = v.i
                r = n - q * d
                g = {'floor': z3.And(0 <= r, r < d), 'ceiling': z3.And(-d < r, r <= 0),
                     'truncate': z3.And(z3.Implies(n >= 0, z3.And(0 <= r, r < d)), z3.Implies(n <= 0, z3.And(-d < r, r <= 0))),
                     'round': z3.And(-d <= 2 * r, 2 * r <= d)}[nm]
                out = [('nearest integer in the direction', g)]
                if nm == 'round':
                    tie = z3.Or(2 * r == d, 2 * r == -d)
                    # lemma half_denominator: a reduced fraction halfway between two integers has denominator 2
                    lemma = z3.Implies(tie, d == 2)
                    out.append(('ties to even', z3.Implies(z3.And(tie, lemma), smt.tqr(q, z3.IntVal(2))[1] == 0)))
                return out + canonical(v)
            obs.append(Ob(nm, [k], post, lambda x, nm=nm: oround(nm, x)))
    # exactness
    for k in 'slr':
        obs.append(Ob('exact', [k], lambda W, st, xs, v: exact_is(v, *nd(xs[0])), lambda x: x))

        def post(W, st, xs, v):
            return double_is(v, to_double(xs[0]))
        obs.append(Ob('inexact', [k], post, lambda x: Flo(cdouble(x)), note='the conversion of a large integer or ratio is the one of GMP'))

    def post(W, st, xs, v):
        b = xs[0].bits
        return exact_is(v, ext.DNUM(b), ext.DDEN(b))

    def fin(x):
        e = fp(x.bits)
        return z3.Or(z3.fpIsNaN(e), z3.fpIsInf(e))

    def pre(x):
        # DNUM/DDEN: the value of a finite double as a reduced fraction
        b = x.bits
        return ext.dfacts(b)
    obs.append(Ob('exact', ['d'], post, lambda x: Err() if not math.isfinite(x.v) else norm(Fraction(x.v)), pre=pre, err=fin))
    obs.append(Ob('inexact', ['d'], lambda W, st, xs, v: bits_are(v, xs[0].bits), lambda x: x))
    # exact powers
    for p in ('ss', 'ls', 'rs'):
        def pre(x, y):
            # larger exponents of numbers other than 0, 1, -1 do not fit memory
            return None

        def post(W, st, xs, v):
            x, y = xs
            n, d = nd(x)
            e = z3.If(y.i >= 0, y.i, -y.i)
            N, D = ext.zpow(n, e), ext.zpow(d, e)
            neg = y.i < 0
            return exact_is(v, z3.If(neg, D, N), z3.If(neg, N, D))

        def oracle(x, y):
            if x == 0 and y < 0:
                return Err()
            if abs(y) > 300 and x not in (0, 1, -1):
                return ANY
            if x in (0, 1, -1):
                return (1 if y == 0 else 0) if x == 0 else (1 if x == 1 or y % 2 == 0 else -1)
            return norm(Fraction(x) ** y)

        def err(x, y):
            return z3.And(nd(x)[0] == 0, y.i < 0)
        G = {'s': [0, 1, -1, 2, -2, 3, 10, -7, 65536, 2**31 - 1, -2**31], 'l': [2**31, -2**31 - 1, 10**20, -10**20 - 1, 2**64], 'r': [Fraction(1, 2), Fraction(-2, 3), Fraction(7, 2), Fraction(2**31, 3)]}[p[0]]
        obs.append(Ob('expt', list(p), post, oracle, err=err, grid=[(x, y) for x in G for y in (0, 1, 2, 3, -1, -2, -3, 5, 31, 32, 33, 63, 64, 65, -64, 100)]))
    return obs
