"""List structure: expected results as terms, recursive functions as contracts.

A term is
  Val                     the very same object (eq?)
  ('cons', a, d)          some pair whose car and cdr match
  ('pair', v, a, d)       the pair v itself, now holding a and d
  ('uf', op, args...)     the object the contract of `op` promised for these arguments
  ('num', e)              an argument that is a machine integer
  ('int', e)              the small integer e;  ('bool', b)
  ('ite', c, t, e)
"""
import re
import z3
from . import smt, sym
from .sym import Ptr, Throw, is_c
from .ext import Table


def fresh(W, st, op, args, name='r'):
    """a new object known only as op(args)"""
    r = W.ex.alloc(st, 40, name, 'opaque')
    w = (0x7ffe << 48) | (r << sym.SHIFT)
    if not hasattr(W, 'den'):
        W.den = {}
    W.den[w] = (op,) + tuple(args)
    return w


def den(W, w):
    return getattr(W, 'den', {}).get(w) if is_c(w) else None


def conj(gs):
    out = []
    for g in gs:
        if g is False:
            return False
        if g is True:
            continue
        out.append(g)
    if not out:
        return True
    return z3.And(*out) if len(out) > 1 else out[0]


def weq(W, a, b, n=64):
    if is_c(a) and is_c(b):
        return a == b
    g = z3.simplify(W.ex.bv(a, n) == W.ex.bv(b, n))
    return True if z3.is_true(g) else (False if z3.is_false(g) else g)


def ispair(W, st, w):
    if not is_c(w) or (w >> 48) != 0x7ffe or den(W, w):
        return False
    r = (w & ((1 << 48) - 1)) >> sym.SHIFT
    if w in getattr(W, 'tails', ()):
        return False
    try:
        d = W.decode(st, w)
    except sym.Unsupported:
        return False
    return len(d) == 1 and d[0][1].kind == 'pair'


def carcdr(W, st, w):
    d = W.decode(st, w)
    if len(d) != 1 or d[0][1].kind != 'pair':
        return None
    return d[0][1].car_w, d[0][1].cdr_w


def goal(W, st, w, t):
    """the condition under which word (or number) w matches term t"""
    if hasattr(t, 'kind'):
        return weq(W, w, t.w)
    k = t[0]
    if k == 'any':
        return True
    if k == 'alt':
        gs = [goal(W, st, w, x) for x in t[1:]]
        if any(g is True for g in gs):
            return True
        gs = [g for g in gs if g is not False]
        return z3.Or(*gs) if gs else False
    if k == 'num':
        a = w if not is_c(w) else z3.BitVecVal(w, 64)
        b = t[1] if not is_c(t[1]) else z3.BitVecVal(t[1], 64)
        return weq(W, a, b)
    if k == 'int':
        e = t[1]
        if is_c(e):
            return weq(W, w, (0x7ffa << 48) | (e & 0xffffffff))
        return weq(W, w, z3.Concat(z3.BitVecVal(0x7ffa0000, 32), e))
    if k == 'i1':
        return weq(W, w, int(t[1]), 1)
    if k == 'ufb':
        for n, key in getattr(W, 'denb', {}).items():
            if key[0] == t[1] and all(goal(W, st, x, y) is True for x, y in zip(key[1:], t[2:])):
                return z3.simplify((W.ex.bv(w, 1) == 1) == z3.Bool(n)) if not z3.is_true(z3.simplify((W.ex.bv(w, 1) == 1) == z3.Bool(n))) else True
        return False
    if k == 'bufb':
        for n, key in getattr(W, 'denb', {}).items():
            if key[0] == t[1] and all(goal(W, st, x, y) is True for x, y in zip(key[1:], t[2:])):
                return goal(W, st, w, ('bool', z3.Bool(n)))
        return False
    if k == 'value':
        d = W.decode(st, w)
        return conj([z3.Implies(z3.And(*list(s.pc)), v.i == t[1]) if v.kind in ('small', 'large') else False for s, v in d])
    if k == 'bool':
        b = t[1]
        if isinstance(b, bool):
            return weq(W, w, (0x7ff9 << 48) | int(b))
        return conj([weq(W, w, z3.If(b, z3.BitVecVal((0x7ff9 << 48) | 1, 64), z3.BitVecVal(0x7ff9 << 48, 64)))])
    if k == 'ite':
        a, b = goal(W, st, w, t[2]), goal(W, st, w, t[3])
        c = t[1]
        if isinstance(c, bool):
            return a if c else b
        f = lambda x: z3.BoolVal(x) if isinstance(x, bool) else x
        return z3.If(c, f(a), f(b))
    if k == 'uf':
        d = den(W, w)
        if d is None or d[0] != t[1] or len(d) != len(t) - 1:
            return False
        return conj([goal(W, d[-1] if False else st, x, y) for x, y in zip(d[1:], t[2:])])
    if k == 'cons':
        p = carcdr(W, st, w) if ispair(W, st, w) else None
        if p is None:
            return False
        return conj([goal(W, st, p[0], t[1]), goal(W, st, p[1], t[2])])
    if k == 'obj':          # an object of a type derived from pair: ('obj', kind, car, cdr)
        if not is_c(w) or den(W, w):
            return False
        d = W.decode(st, w)
        if len(d) != 1 or d[0][1].kind != t[1]:
            return False
        return conj([goal(W, st, d[0][1].car_w, t[2]), goal(W, st, d[0][1].cdr_w, t[3])])
    if k == 'bad':
        return False
    if k == 'w':            # this very word
        return weq(W, w, t[1])
    if k == 'newcons':      # a pair that is none of the argument pairs
        if is_c(w) and w in W.inputs_w:
            return False
        return goal(W, st, w, ('cons',) + t[1:])
    if k == 'pair':
        if not is_c(w) or w != t[1].w:
            return False
        return goal(W, st, w, ('cons', t[2], t[3]))
    raise ValueError(k)


def lst(xs, tail):
    for x in reversed(xs):
        tail = ('cons', x, tail)
    return tail


def newlst(xs, tail):
    for x in reversed(xs):
        tail = ('newcons', x, tail)
    return tail


class Rec:
    """the contract of a recursive function, applied at every call of it while its body is verified

    name: demangled or mangled name; op: the specification function; args: 'o' object reference,
    'n' machine integer; dec: index of the argument that must be a tail (structural decrease) or None"""

    def __init__(self, name, op, args, ret='obj', dec=0, proved='', clause=None, pair=False):
        self.name, self.op, self.args, self.ret, self.dec, self.proved, self.clause, self.pair = name, op, args, ret, dec, proved, clause, pair

    def install(self, W):
        t = Table()
        if isinstance(self.name, tuple):
            reg = lambda n, cname: t.r('^' + '.*'.join(re.escape(x) for x in n) + '$', cname=cname)
        else:
            reg = t.c if self.name.startswith('_Z') else t.d
        rec = self

        @reg(self.name, cname='%s (own contract%s)' % (self.op, self.proved or ', proved here'))
        def _(cx, *a):
            a = list(a)
            ret = a.pop(0) if rec.ret == 'obj' else None
            vs = []
            for k, x in zip(rec.args, a):
                vs.append(cx.ex.load(cx.st, x, 8) if k == 'o' else x)
            if rec.dec is not None:
                w = vs[rec.dec]
                if w not in W.smaller:
                    raise sym.Unsupported('recursive call of %s not on the tail' % rec.op)
            if rec.ret == 'bool':
                key = (rec.op,) + tuple(vs)
                b = z3.Bool('%s!%d' % (rec.op, len(W.__dict__.setdefault('denb', {}))))
                W.denb[b.decl().name()] = key
                return z3.If(b, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
            w = rec.clause(W, cx.st, vs) if rec.clause else None
            if w is None and rec.pair:
                # the result is known to be a pair: give it a car and a cdr of its own
                x, y = fresh(W, cx.st, ('car', rec.op), vs), fresh(W, cx.st, ('cdr', rec.op), vs)
                s = [Ptr(cx.ex.alloc(cx.st, 8, 's', 'stack'), 0) for _ in range(3)]
                cx.ex.store(cx.st, s[1], 8, x)
                cx.ex.store(cx.st, s[2], 8, y)
                W.run1('vf_cons', s, cx.st)
                w = cx.ex.load(cx.st, s[0], 8)
            if w is None:
                w = fresh(W, cx.st, rec.op, vs)
            if rec.ret == 'obj':
                cx.ex.store(cx.st, ret, 8, w)
                return None
            r = cx.ex.alloc(cx.st, 8, 'ref', 'stack')
            cx.ex.store(cx.st, Ptr(r, 0), 8, w)
            return Ptr(r, 0)
        W.ex.contracts = [t] + list(W.ex.contracts)


def shapes_setup(*recs):
    def setup(W):
        W.smaller = set()
        W.inputs_w = set()
        for r in recs:
            r.install(W)
    return setup
