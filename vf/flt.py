"""Double arithmetic on bit patterns. The four operations and the conversion from integers are the
hardware's: uninterpreted functions with the IEEE 754 facts the obligations need (identities, zeros,
NaN propagation), so that no obligation depends on a solver's bit-level model of them."""
import z3
from . import smt

F64 = z3.Float64()
B64 = z3.BitVecSort(64)
UADD = z3.Function('ieee_add', B64, B64, B64)
UMUL = z3.Function('ieee_mul', B64, B64, B64)
UDIV = z3.Function('ieee_div', B64, B64, B64)
UI2D = z3.Function('ieee_of_int', B64, B64)
SIGN = z3.BitVecVal(1 << 63, 64)
ONE = z3.BitVecVal(0x3ff0 << 48, 64)
_memo = {}


def bv(x):
    return z3.BitVecVal(x, 64) if isinstance(x, int) else z3.simplify(x)


def fp(b):
    return z3.fpBVToFP(bv(b), F64)


def isnan(b):
    # on the bits: exponent all ones, fraction not zero
    return z3.And(z3.Extract(62, 52, b) == 0x7ff, z3.Extract(51, 0, b) != 0)


def iszero(b):
    return z3.Extract(62, 0, b) == 0


def define(u, args, facts):
    k = (u.name(),) + tuple(a.get_id() for a in args)
    h = _memo.get(k)
    if h is None:
        r = smt.fresh_bv(u.name(), 64)
        smt.attach(r, r == u(*args), *facts(r))
        h = (r, args)
        _memo[k] = h
    return h[0]


def add(a, b):
    a, b = bv(a), bv(b)

    def facts(r):
        nn = z3.Not(z3.Or(isnan(a), isnan(b)))
        return [r == UADD(b, a), z3.Or(isnan(r), iszero(r), UADD(neg(a), neg(b)) == (r ^ SIGN)), z3.Implies(z3.Or(isnan(a), isnan(b)), isnan(r)),
                z3.Implies(z3.And(nn, iszero(a), z3.Not(iszero(b))), r == b), z3.Implies(z3.And(nn, iszero(b), z3.Not(iszero(a))), r == a),
                z3.Implies(z3.And(nn, a == (b ^ SIGN), z3.Extract(62, 52, a) != 0x7ff), r == 0),
                z3.Implies(z3.And(iszero(a), iszero(b)), r == z3.If(a == b, a, z3.BitVecVal(0, 64)))]
    return define(UADD, (a, b), facts)


def neg(b):
    return z3.simplify(bv(b) ^ SIGN)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    a, b = bv(a), bv(b)

    def facts(r):
        nn = z3.Not(z3.Or(isnan(a), isnan(b)))
        return [r == UMUL(b, a), z3.Implies(z3.Or(isnan(a), isnan(b)), isnan(r)), z3.Implies(z3.And(nn, a == ONE), r == b), z3.Implies(z3.And(nn, b == ONE), r == a)]
    return define(UMUL, (a, b), facts)


def div(a, b):
    a, b = bv(a), bv(b)

    def facts(r):
        return [z3.Implies(z3.Or(isnan(a), isnan(b)), isnan(r)), z3.Implies(z3.And(z3.Not(isnan(a)), b == ONE), r == a)]
    return define(UDIV, (a, b), facts)


def of_int(v):
    """v: signed bit-vector of at most 64 bits"""
    v = z3.simplify(v)
    if v.size() < 64:
        v = z3.simplify(z3.SignExt(64 - v.size(), v))
    if z3.is_bv_value(v):
        import struct
        return z3.BitVecVal(struct.unpack('<Q', struct.pack('<d', float(v.as_signed_long())))[0], 64)

    def facts(r):
        e = z3.Extract(62, 52, r)
        return [z3.ULE(e, 1023 + 63), (v == 0) == (r == 0), z3.Implies(v != 0, z3.UGE(e, 1023)), z3.Implies(v != 0, (z3.Extract(63, 63, r) == 1) == (v < 0)), (v == 1) == (r == ONE)]
    return define(UI2D, (v,), facts)
