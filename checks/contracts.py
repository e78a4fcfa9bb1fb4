"""Contracts for recursive functions of /repo: at the recursive call the contract is used, never the body."""
import z3
from vf import smt, ext, sym
from vf.sym import Ptr, Branches
from vf.ext import Table
from vf.numspec import fits


def store_int(W, ret, i):
    """ret := the canonical object for the integer i (a case split on its size)"""
    def small(st):
        b, c = smt.mk_int_bv('ret', 32)
        st.assume(c == i)
        W.ex.store(st, ret, 8, z3.Concat(z3.BitVecVal(0x7ffa0000, 32), b))

    def large(st):
        r = W.ex.alloc(st, 16, 'mpz', 'stack')
        from vf.world import CX
        ext.zinit(CX(W.ex, st), Ptr(r, 0), i)
        W.run1('vf_large', [ret, Ptr(r, 0)], st)
    raise Branches([(fits(i), small), (z3.Not(fits(i)), large)])


def ints(W, cx, *ps):
    """the exact integers the object references denote (one decoding each)"""
    out = []
    for p in ps:
        w = W.ex.load(cx.st, p, 8)
        d = W.decode(cx.st, w)
        if len(d) != 1 or d[0][1].kind not in ('small', 'large'):
            raise sym.Unsupported('contract applied to %s' % [v.kind for _, v in d])
        out.append(d[0][1].i)
    return out


GCDNAME = 'meevax::number::gcd(meevax::object const&, meevax::object const&)'
GCDF = smt.GCD


def gcd_facts(a, b):
    g = GCDF(a, b)
    return [g >= 0, (g == 0) == z3.And(a == 0, b == 0)]


def gcd_contract(measure=None):
    """gcd(x, y): a nonnegative exact integer GCD(x, y); recursive calls must decrease |y|"""
    def setup(W):
        t = Table()

        @t.d(GCDNAME, cname='number::gcd (own contract, proved here)')
        def _(cx, ret, x, y):
            a, b = ints(W, cx, x, y)
            if measure is not None:
                cx.ex.require(cx.st, smt.absi(b) < smt.absi(measure(W)), 'recursion of gcd does not decrease')
            for f in gcd_facts(a, b):
                cx.st.assume(f)
            store_int(W, ret, GCDF(a, b))
        W.ex.contracts = [t] + list(W.ex.contracts)
    return setup


QUOT = 'meevax::number::quotient(meevax::object const&, meevax::object const&)'


def quotient_contract(hints=()):
    """quotient(x, y), y != 0, on exact integers: the truncated quotient (proved by the obligations on quotient)"""
    def setup(W):
        t = Table()

        @t.d(QUOT, cname='number::quotient (own contract, proved in A03)')
        def _(cx, ret, x, y):
            a, b = ints(W, cx, x, y)
            cx.ex.require(cx.st, b != 0, 'quotient by zero')
            q, r = smt.tqr(a, b)
            for h in hints:
                cx.st.assume(smt.tqr_hint(a, b, h(W)))
            store_int(W, ret, q)
        W.ex.contracts = [t] + list(W.ex.contracts)
    return setup


def both(*fs):
    def setup(W):
        for f in fs:
            f(W)
    return setup
