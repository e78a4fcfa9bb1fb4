"""Specifications over exact numbers: what a word denotes, and goals about results."""
from fractions import Fraction
import z3
from . import smt, ext
from .data import norm

EXACT = ('small', 'large', 'ratio')
INT = ('small', 'large')


def nd(v):
    """(numerator, denominator) of an exact number as Int terms"""
    if v.kind in INT:
        return v.i, z3.IntVal(1)
    if v.kind == 'ratio':
        return v.n, v.d
    raise ValueError(v.kind)


def fits(i):
    return z3.And(i >= -(1 << 31), i <= (1 << 31) - 1)


def canonical(v):
    """the representation invariant of exact numbers: one representation per value"""
    if v.kind == 'small':
        return []
    if v.kind == 'large':
        return [('canonical: a large integer does not fit a small one', z3.Not(fits(v.i)))]
    return [('canonical: denominator of a ratio exceeds one', v.d >= 2),
            ('canonical: ratio in lowest terms', ext.COPRIME(v.n, v.d))]


def exact_is(v, N, D=1):
    """the result is the exact number N/D (D != 0), canonically represented"""
    if v.kind not in EXACT:
        return [('result is an exact number', False)]
    D = z3.IntVal(D) if isinstance(D, int) else D
    out = []
    if v.kind == 'ratio':
        out.append(('value', v.n * D == N * v.d))
    else:
        out.append(('value', v.i * D == N))
    return out + canonical(v)


def int_is(v, N):
    if v.kind not in INT:
        return [('result is an exact integer', False)]
    return [('value', v.i == N)] + canonical(v)


def bool_is(v, cond):
    if v.kind != 'bool':
        return [('result is a boolean', False)]
    if isinstance(v.b, int):
        return [('value', cond if v.b else z3.Not(cond))]
    return [('value', (v.b == 1) == cond)]


def any_exact(v):
    return [('result is an exact number', v.kind in EXACT)] + (canonical(v) if v.kind in EXACT else [])
