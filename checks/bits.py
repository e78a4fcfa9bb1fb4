"""A04: bitwise operations on exact integers as two's complement with infinite sign extension."""
import z3
from vf import smt, ext
from vf.oblig import Ob
from vf.data import ANY
from vf.numspec import *

IP = ['ss', 'sl', 'ls', 'll']


def bits2(a, b, F, op):
    """a op b on exact integers: machine words when both fit, the GMP operation otherwise"""
    return F(a.i, b.i)


def small_word(W, v):
    return v.bv


def a04(tier):
    obs = []
    OPS = {'bitwise-and': (ext.zand, lambda a, b: a & b, -1), 'bitwise-ior': (ext.zior, lambda a, b: a | b, 0), 'bitwise-xor': (ext.zxor, lambda a, b: a ^ b, 0)}
    for nm, (F, op, unit) in OPS.items():
        for p in ['', 's', 'l'] + IP + ['sss', 'lll', 'sll']:
            def post(W, st, xs, v, F=F, op=op, unit=unit):
                if not xs:
                    return int_is(v, z3.IntVal(unit))
                if all(x.kind == 'small' for x in xs):
                    if v.kind != 'small':
                        return [('result is a small integer', False)]
                    w = xs[0].bv
                    for x in xs[1:]:
                        w = op(w, x.bv)
                    return [('value', v.bv == w)]
                r = xs[0].i
                for x in xs[1:]:
                    r = F(r, x.i)
                return int_is(v, r)

            def oracle(*xs, op=op, unit=unit):
                r = unit
                for x in xs:
                    r = op(r, x)
                return r
            obs.append(Ob(nm, list(p), post, oracle))
    for k in 'sl':
        def post(W, st, xs, v):
            return int_is(v, -xs[0].i - 1)
        obs.append(Ob('bitwise-not', [k], post, lambda x: ~x))
    # shifts: every count below 64 in magnitude separately, then all the larger ones at once
    def shl(W, st, xs, v):
        return int_is(v, xs[0].i * ext.pow2(xs[1].i))

    def oshift(x, c):
        if abs(c) > 5000:
            return ANY if c > 0 else (-1 if x < 0 else 0)
        return x << c if c >= 0 else x >> -c
    S = [0, 1, -1, 2, 5, -6, 100, -100, 2**30, 2**31 - 1, -2**31]
    L = [2**31, -2**31 - 1, 2**63, -2**64, 10**40 + 7, -10**40 - 9, 2**128 - 1]
    for k in 'sl':
        for c in list(range(0, 66)) + [-c for c in range(1, 66)]:
            if tier == 'quick' and k == 'l' and abs(c) not in (0, 1, 2, 31, 32, 33, 63, 64, 65):
                continue

            def post(W, st, xs, v, c=c, k=k):
                if c >= 0:
                    return int_is(v, xs[0].i * (1 << c))
                if k == 's':
                    if v.kind != 'small':
                        return [('result is a small integer', False)]
                    return [('value', v.bv == xs[0].bv >> min(-c, 31))]
                return int_is(v, ext.FSHR(xs[0].i, z3.IntVal(-c)))
            obs.append(Ob('bit-shift', [k, c], post, oshift, grid=[(x, c) for x in (S if k == 's' else L)]))

        def pre_l(x, c):
            return c.i >= 64

        def post_l(W, st, xs, v):
            return int_is(v, xs[0].i * ext.pow2(xs[1].i))
        obs.append(Ob('bit-shift', [k, 's'], post_l, oshift, pre=pre_l, name='bit-shift %s c>=64' % k, grid=[(x, c) for x in (S if k == 's' else L) for c in (64, 65, 66, 127, 128, 200)]))

        def pre_r(x, c):
            return c.i <= -64

        def post_r(W, st, xs, v, k=k):
            if k == 's':
                return int_is(v, z3.If(xs[0].i < 0, z3.IntVal(-1), z3.IntVal(0)))
            return int_is(v, ext.FSHR(xs[0].i, -xs[1].i))
        obs.append(Ob('bit-shift', [k, 's'], post_r, oshift, pre=pre_r, name='bit-shift %s c<=-64' % k, grid=[(x, c) for x in (S if k == 's' else L) for c in (-64, -65, -128, -200, -2**31)]))

    def count(x):
        return bin(x).count('1') if x >= 0 else bin(~x).count('1')

    def post_count(W, st, xs, v):
        x = xs[0]
        if x.kind == 'small':
            w = z3.If(x.bv < 0, ~x.bv, x.bv)
            s = z3.BitVecVal(0, 32)
            for i in range(32):
                s = s + z3.ZeroExt(31, z3.Extract(i, i, w))
            return [('value', v.bv == s)] if v.kind == 'small' else [('result is a small integer', False)]
        if v.kind != 'small':
            return [('result is a small integer', False)]
        return [('value', v.i == ext.POPC(z3.If(x.i < 0, -x.i - 1, x.i)))]

    def post_width(W, st, xs, v):
        x = xs[0]
        if v.kind != 'small':
            return [('result is a small integer', False)]
        if x.kind == 'small':
            w = z3.If(x.bv < 0, ~x.bv, x.bv)
            s = z3.BitVecVal(0, 32)
            for i in range(32):
                s = z3.If(z3.Extract(i, i, w) == 1, z3.BitVecVal(i + 1, 32), s)
            return [('value', v.bv == s)]
        return [('value', v.i == ext.ILEN(z3.If(x.i < 0, -x.i - 1, x.i)))]
    for k in 'sl':
        # a count of bits is below 2^31 on every number that fits in memory
        def pre(x):
            if x.kind == 'large':
                y = z3.If(x.i < 0, -x.i - 1, x.i)
                return [ext.POPC(y) < (1 << 31), ext.POPC(y) >= 0, ext.ILEN(y) < (1 << 31), ext.ILEN(y) >= 0, ext.ILEN(z3.If(y < 0, -y, y)) == ext.ILEN(y)]
        obs.append(Ob('bit-count', [k], post_count, count, pre=pre))
        obs.append(Ob('bit-width', [k], post_width, lambda x: (x if x >= 0 else ~x).bit_length(), pre=pre))
    return obs
