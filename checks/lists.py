"""B03: pairs and lists."""
import itertools
import z3
from vf import data, lists, oblig, smt
from vf.data import Nil, Pair, Err, Sym, ANY
from vf.lists import Rec, lst, newlst
from vf.oblig import Ob, walk

NULLW = 0x7fff << 48


# ---------------------------------------------------------------- argument shapes
def cells(n, tail='T', el='o'):
    """a list of n elements ending in `tail`"""
    def f(W, nm):
        return W.list([oblig.mk(W, el, '%s_%d' % (nm, i)) for i in range(n)], oblig.mk(W, tail, nm + 't'))
    f.label = '%s%s' % ('c' * n, tail)
    f.n, f.tail_ = n, tail
    f.grid = None
    return f


def items(v):
    xs = []
    while v.kind == 'pair':
        xs.append(v.car)
        v = v.cdr
    return xs, v


def nil(W, nm):
    return W.null()


nil.label, nil.grid = 'n', [Nil]


class LOb(Ob):
    """term(*args) -> the expected result as a term of vf/lists.py"""

    def __init__(self, fn, kinds, term, err=None, recs=(), check=None, **kw):
        def post(W, st, args, w):
            W.inputs_w = {v.w for a in args for v in walk(a) if v.kind == 'pair'}
            out = [('result', lists.goal(W, st, w, term(*args)))]
            if check:
                out += check(W, st, args, w)
            return out
        kw.setdefault('call', 'prim')
        setup = lists.shapes_setup(*recs)
        super().__init__(fn, kinds, post, raw=True, err=err, setup=setup, **kw)

    def prepare(self, W, args):
        # what a recursive call may be applied to: proper parts of the arguments
        for a in args:
            for v in walk(a):
                if v is not a or self.call == 'prim':
                    W.smaller.add(v.w)


# ---------------------------------------------------------------- concrete side: oracles over data
def L(*xs, tail=Nil):
    for x in reversed(xs):
        tail = Pair(x, tail)
    return tail


def un(d):
    xs = []
    while isinstance(d, Pair):
        xs.append(d.car)
        d = d.cdr
    return xs, d


class Bad(Exception):
    pass


def proper(d):
    xs, t = un(d)
    if t is not Nil:
        raise Bad()
    return xs


def S(n):
    return Sym('abcdefghijkl'[n])


def same_eqv(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return a == b
    return type(a) == type(b) and not isinstance(a, (Pair, data.Str, data.Vec)) and a == b


LISTS = [L(*[S(i) for i in range(n)]) for n in range(6)]
IMPROPER = [L(*[S(i) for i in range(n)], tail=S(9)) for n in range(1, 4)]
NUMS = [L(1, 2, 3, 2, 1), L(3, 1), L(), L(2), L(2**40, 5, 2**40), L(7, 2**70, -5)]
ATOMS = [S(10), 5, True, data.Char(97)]
ALISTS = [L(*[L(k, S(i)) for i, k in enumerate(ks)]) for ks in ([], [1], [1, 2, 3], [3, 2, 3], [2**40, 1])]


def nth(k):
    def f(x):
        xs, t = un(x)
        return xs[k] if k < len(xs) else Err()
    return f


def drop(x, k):
    if k < 0:
        return Err()
    for _ in range(k):
        if not isinstance(x, Pair):
            return Err()
        x = x.cdr
    return x


def take(x, k):
    xs, t = un(x)
    return L(*xs[:k]) if 0 <= k <= len(xs) else Err()


def mem(x, xs):
    while isinstance(xs, Pair):
        if same_eqv(x, xs.car):
            return xs
        xs = xs.cdr
    return False


def ass(x, xs):
    while isinstance(xs, Pair):
        if not isinstance(xs.car, Pair):
            return Err()
        if same_eqv(x, xs.car.car):
            return xs.car
        xs = xs.cdr
    return False


def takeright(x, k):
    xs, t = un(x)
    return drop(x, len(xs) - k) if 0 <= k <= len(xs) else Err()


def dropright(x, k):
    xs, t = un(x)
    return L(*xs[:len(xs) - k]) if 0 <= k <= len(xs) else Err()


KS = [0, 1, 2, 3, 4]
ORACLE = {
    'append': (lambda *ls: (lambda hs, t: L(*[x for h in hs for x in proper(h)], tail=t))(ls[:-1], ls[-1]) if ls else Nil,
               [(a, b) for a in LISTS for b in LISTS[:3] + ATOMS[:1]] + [(a, b, c) for a in LISTS[:3] for b in LISTS[:3] for c in LISTS[:3]] + [(), (LISTS[2],), (S(1),)]),
    'append!': (lambda *ls: (lambda hs, t: L(*[x for h in hs for x in proper(h)], tail=t))(ls[:-1], ls[-1]) if ls else Nil,
                [(a, b) for a in LISTS for b in LISTS] + [(a, b, c) for a in LISTS[:3] for b in LISTS[:3] for c in LISTS[:3]] + [()]),
    'append-reverse': (lambda a, b: L(*proper(a)[::-1], tail=b), [(a, b) for a in LISTS for b in LISTS + ATOMS]),
    'append-reverse!': (lambda a, b: L(*proper(a)[::-1], tail=b), [(a, b) for a in LISTS for b in LISTS + ATOMS]),
    'reverse': (lambda a: L(*proper(a)[::-1]), [(a,) for a in LISTS + NUMS]),
    'reverse!': (lambda a: L(*proper(a)[::-1]), [(a,) for a in LISTS + NUMS]),
    'concatenate': (lambda a: L(*[x for l in proper(a) for x in proper(l)]), [(L(*p),) for n in (1, 2, 3) for p in itertools.product(LISTS[:3], repeat=n)]),
    'concatenate!': (lambda a: L(*[x for l in proper(a) for x in proper(l)]), [(L(*p),) for n in (1, 2, 3) for p in itertools.product(LISTS[:3], repeat=n)]),
    'list-copy': (lambda a: a, [(a,) for a in LISTS + IMPROPER + ATOMS]),
    'list-tail': (drop, [(a, k) for a in LISTS + IMPROPER for k in KS]),
    'drop': (drop, [(a, k) for a in LISTS + IMPROPER for k in KS]),
    'list-ref': (lambda a, k: nth(k)(a), [(a, k) for a in LISTS + IMPROPER for k in KS]),
    'take': (take, [(a, k) for a in LISTS for k in KS]),
    'take!': (take, [(a, k) for a in LISTS for k in KS]),
    'take-right': (takeright, [(a, k) for a in LISTS + IMPROPER for k in KS]),
    'drop-right': (dropright, [(a, k) for a in LISTS + IMPROPER for k in KS]),
    'drop-right!': (dropright, [(a, k) for a in LISTS + IMPROPER for k in KS]),
    'memq': (mem, [(S(i), a) for i in range(6) for a in LISTS + IMPROPER]),
    'memv': (mem, [(x, a) for x in (1, 2, 3, 5, 2**40, 2**70) for a in NUMS] + [(S(1), a) for a in LISTS]),
    'assq': (ass, [(x, a) for x in (1, 2, 3, 5) for a in ALISTS[:4]]),
    'assv': (ass, [(x, a) for x in (1, 2, 3, 5, 2**40, 2**41) for a in ALISTS]),
    'alist-copy': (lambda a: a, [(a,) for a in ALISTS]),
    'make-list': (lambda k, x: L(*[x] * k), [(k, S(0)) for k in KS]),
    'iota': (lambda n, a=0, d=1: L(*[a + i * d for i in range(n)]), [(n,) for n in KS] + [(n, a) for n in KS for a in (0, 5, -3)] + [(n, a, d) for n in KS for a in (0, 5, 2**31 - 2) for d in (1, -2, 2**40)]),
    'list?': (lambda a: un(a)[1] is Nil, [(a,) for a in LISTS + IMPROPER + ATOMS]),
    'circular-list?': (lambda a: False, [(a,) for a in LISTS + IMPROPER + ATOMS]),
    'dotted-list?': (lambda a: un(a)[1] is not Nil, [(a,) for a in LISTS + IMPROPER + ATOMS]),
    'last': (lambda a: un(a)[0][-1] if un(a)[0] else Err(), [(a,) for a in LISTS + IMPROPER]),
    'last-pair': (lambda a: (lambda xs, t: Pair(xs[-1], t) if xs else Err())(*un(a)), [(a,) for a in LISTS + IMPROPER]),
    'length': (lambda a: len(proper(a)), [(a,) for a in LISTS + NUMS]),
    'length+': (lambda a: len(proper(a)), [(a,) for a in LISTS + NUMS]),
    'cons': (lambda a, b: Pair(a, b), [(a, b) for a in ATOMS for b in LISTS[:2] + ATOMS]),
    'xcons': (lambda a, b: Pair(b, a), [(a, b) for a in ATOMS for b in LISTS[:2] + ATOMS]),
    'list': (lambda *a: L(*a), [tuple(S(i) for i in range(n)) for n in range(5)]),
    'cons*': (lambda *a: L(*a[:-1], tail=a[-1]) if a else Err(), [tuple(S(i) for i in range(n)) for n in range(5)] + [(S(0), S(1), LISTS[2])]),
    'null?': (lambda a: a is Nil, [(a,) for a in LISTS + ATOMS]),
    'pair?': (lambda a: isinstance(a, Pair), [(a,) for a in LISTS + ATOMS]),
    'null-list?': (lambda a: a is Nil if un(a)[1] is Nil else Err(), [(a,) for a in LISTS + IMPROPER + ATOMS]),
}
ORDINALS = 'first second third fourth fifth sixth seventh eighth ninth tenth'.split()
TEN = [L(*[S(i) for i in range(n)]) for n in range(12)]
for _i, _n in enumerate(ORDINALS):
    ORACLE[_n] = (nth(_i), [(a,) for a in TEN])


def oracle(fn):
    f, g = ORACLE[fn]

    def o(*xs):
        try:
            return f(*xs)
        except Bad:
            return ANY
    return o, g


def ob(fn, kinds, term, **kw):
    if fn in ORACLE:
        o, g = oracle(fn)
        kw.setdefault('oracle', o)
        kw.setdefault('grid', g)
    return LOb(fn, kinds, term, **kw)


N = 'meevax::'
O = 'meevax::object const&'
R = {
    'APPEND': Rec(N + 'append(%s, %s)' % (O, O), 'APPEND', 'oo'),
    'COPY': Rec(N + 'list_copy(%s)' % O, 'COPY', 'o'),
    'TAKE': Rec(N + 'take(%s, unsigned long)' % O, 'TAKE', 'on'),
    'DROP': Rec(N + 'drop(%s, unsigned long)' % O, 'DROP', 'on', ret='ref'),
    'DROPM': Rec(N + 'drop(meevax::object&, unsigned long)', 'DROP!', 'on', ret='ref'),
    'TAIL': Rec('decltype(fp) meevax::tail<%s>(%s, unsigned long)' % (O, O), 'TAIL', 'on', ret='ref'),
    'TAKERIGHT': Rec(N + 'take_right(%s, %s)' % (O, O), 'TAKERIGHT', 'oo', ret='ref', dec=1),
    'DROPRIGHT': Rec(N + 'drop_right(%s, %s)' % (O, O), 'DROPRIGHT', 'oo', dec=1),
    'REVAPP': Rec(N + 'reverse(%s, %s)' % (O, O), 'REVAPP', 'oo'),
    'APPREV': Rec(N + 'append_reverse(%s, %s)' % (O, O), 'APPREV', 'oo'),
    'REVX': Rec(N + 'reverse(meevax::object&, %s)' % O, 'REV!', 'oo'),
    'APPREVX': Rec(N + 'append_reverse(meevax::object&, %s)' % O, 'APPREV!', 'oo'),
    'MEMQ': Rec(N + 'memq(%s, %s)' % (O, O), 'MEMQ', 'oo', ret='ref', dec=1),
    'MEMV': Rec(N + 'memv(%s, %s)' % (O, O), 'MEMV', 'oo', ret='ref', dec=1),
    'ASSQ': Rec(N + 'assq(%s, %s)' % (O, O), 'ASSQ', 'oo', ret='ref', dec=1),
    'ASSV': Rec(N + 'assv(%s, %s)' % (O, O), 'ASSV', 'oo', ret='ref', dec=1),
    'MAPPAIR': Rec(('meevax::object meevax::map<meevax::alist_copy', '(meevax::object const&)::$_0, meevax::object const&, meevax::object const&)'), 'ALISTCOPY', 'oo'),
    'MAKE': Rec(N + 'make_list(unsigned long, %s)' % O, 'MAKE', 'no', dec=None),
    'IOTA': Rec(N + 'iota(unsigned long, %s, %s)' % (O, O), 'IOTA', 'noo', dec=None),
    'PROPER': Rec(N + 'is_proper_list(%s, %s)' % (O, O), 'PROPER', 'oo', ret='bool'),
    'CIRCULAR': Rec(N + 'is_circular_list(%s, %s)' % (O, O), 'CIRCULAR', 'oo', ret='bool'),
    'DOTTED': Rec(N + 'is_dotted_list(%s, %s)' % (O, O), 'DOTTED', 'oo', ret='bool'),
    'LASTPAIR': Rec('decltype(fp) meevax::last_pair<%s>(%s)' % (O, O), 'LASTPAIR', 'o', ret='ref'),
}


def uf(op, *a):
    return ('uf', op) + a


NILT = None


class _W:
    """a word given outright"""
    kind = 'word'

    def __init__(self, w):
        self.w = w


NILT = _W(NULLW)
FALSE = _W(0x7ff9 << 48)


def entry(k):
    def f(W, nm):
        return W.cons(oblig.mk(W, k, nm + 'k'), W.opaque(nm + 'v'))
    f.label, f.grid = '(%s . o)' % k, None
    return f


def eqw(a, b):
    f = lambda w: w if not isinstance(w, int) else z3.BitVecVal(w, 64)
    return z3.simplify(f(a.w) == f(b.w))


def eqvc(a, b):
    """eqv? on numbers and characters of the kinds s, l, c"""
    if a.kind != b.kind:
        return z3.BoolVal(False)
    if a.kind in ('small', 'large'):
        return a.i == b.i
    if a.kind == 'char':
        return a.cp == b.cp
    return eqw(a, b)


def ind():
    """the recursive functions: one unfolding each, the recursive call replaced by the contract"""
    obs = []

    def rec(fn, key, shapes, recs=None, **kw):
        r = R[key]
        for kinds, term in shapes:
            e = None
            if isinstance(term, tuple) and len(term) == 2 and callable(term[0]):
                term, e = term
            obs.append(ob(fn, kinds, term, err=e, recs=[R[x] for x in (recs or [key])], call=r.name, name='%s: %s %s' % (fn, key, ' '.join(k if isinstance(k, str) else getattr(k, 'label', str(k)) for k in kinds)), **kw))
    C1, C2 = cells(1), cells(2)
    CN = cells(1, 'n')
    rec('append', 'APPEND', [(['n', 'T'], lambda x, y: y), (['w', 'T'], lambda x, y: y),
                             ([C1, 'T'], lambda x, y: ('newcons', x.car, uf('APPEND', x.cdr, y)))])
    rec('list-copy', 'COPY', [(['n'], lambda x: x), (['w'], lambda x: x), ([C1], lambda x: ('newcons', x.car, uf('COPY', x.cdr)))])

    def kcase(base, step):
        return lambda x, k: ('ite', k.w == 0, base(x, k), step(x, k))
    for nm, key in (('drop', 'DROP'), ('list-tail', 'TAIL')):
        op = R[key].op
        rec(nm, key, [(['T', oblig.kconst(0)], lambda x, k: x),
                      ([C1, 'k'], kcase(lambda x, k: x, lambda x, k, op=op: uf(op, x.cdr, ('num', k.w - 1))))])
    rec('take', 'TAKE', [(['T', oblig.kconst(0)], lambda x, k: NILT),
                         ([C1, 'k'], kcase(lambda x, k: NILT, lambda x, k: ('newcons', x.car, uf('TAKE', x.cdr, ('num', k.w - 1)))))])
    for nm, key in (('take-right', 'TAKERIGHT'), ('drop-right', 'DROPRIGHT')):
        take_ = key == 'TAKERIGHT'
        base = (lambda x, y: x) if take_ else (lambda x, y: NILT)
        step = (lambda x, y: uf('TAKERIGHT', x.cdr, y.cdr)) if take_ else (lambda x, y: ('newcons', x.car, uf('DROPRIGHT', x.cdr, y.cdr)))
        rec(nm, key, [(['T', 'n'], base), (['T', 'w'], base), ([C1, C1], step)])
    for nm, key in (('reverse', 'REVAPP'), ('append-reverse', 'APPREV')):
        op = R[key].op
        rec(nm, key, [(['n', 'T'], lambda x, y: y), ([C1, 'T'], lambda x, y, op=op: uf(op, x.cdr, ('newcons', x.car, y)))])
    for nm, key, pure in (('reverse!', 'REVX', 'REVAPP'), ('append-reverse!', 'APPREVX', 'APPREV')):
        op = R[key].op
        # linear update: the first pair may be reused; the rest by either version
        rec(nm, key, [(['n', 'T'], lambda x, y: y), ([C1, 'T'], lambda x, y, op=op, pure=R[pure].op: ('alt', uf(op, x.cdr, ('pair', x, x.car, y)), uf(pure, x.cdr, ('pair', x, x.car, y)), uf(pure, x.cdr, ('newcons', x.car, y))))], frame=False, recs=[key, pure])
    for nm, key, el, q in (('memq', 'MEMQ', 'w', eqw), ('memv', 'MEMV', 's', eqvc), ('memv', 'MEMV', 'l', eqvc), ('memv', 'MEMV', 'c', eqvc)):
        op = R[key].op
        rec(nm, key, [([el, cells(1, 'T', el)], lambda x, y, op=op, q=q: ('ite', q(x, y.car), y, uf(op, x, y.cdr)))])
    rec('memv', 'MEMV', [(['s', cells(1, 'T', 'l')], lambda x, y: uf('MEMV', x, y.cdr)), (['l', cells(1, 'T', 's')], lambda x, y: uf('MEMV', x, y.cdr))])
    rec('memq', 'MEMQ', [(['o', cells(1)], lambda x, y: uf('MEMQ', x, y.cdr)), (['o', 'n'], lambda x, y: FALSE), (['o', 'w'], lambda x, y: FALSE)])
    rec('memv', 'MEMV', [(['o', 'n'], lambda x, y: FALSE), (['o', 'w'], lambda x, y: FALSE)])
    for nm, key, el, q in (('assq', 'ASSQ', 'w', eqw), ('assv', 'ASSV', 's', eqvc), ('assv', 'ASSV', 'l', eqvc), ('assv', 'ASSV', 'c', eqvc)):
        op = R[key].op
        rec(nm, key, [([el, cells(1, 'T', entry(el))], lambda x, y, op=op, q=q: ('ite', q(x, y.car.car), y.car, uf(op, x, y.cdr)))])
    rec('assv', 'ASSV', [(['s', cells(1, 'T', entry('l'))], lambda x, y: uf('ASSV', x, y.cdr)), (['l', cells(1, 'T', entry('s'))], lambda x, y: uf('ASSV', x, y.cdr))])
    for nm, key in (('assq', 'ASSQ'), ('assv', 'ASSV')):
        rec(nm, key, [(['o', 'n'], lambda x, y: FALSE), (['o', 'w'], lambda x, y: FALSE)])
    rec('alist-copy', 'MAPPAIR', [(['n', 'n'], lambda x, y: NILT), ([cells(1, 'T', entry('o')), 'n'], lambda x, y: ('newcons', ('newcons', x.car.car, x.car.cdr), uf('ALISTCOPY', x.cdr, y)))])
    rec('make-list', 'MAKE', [(['k', 'o'], lambda k, x: ('ite', k.w == 0, NILT, ('newcons', x, uf('MAKE', ('num', k.w - 1), x))))])
    rec('iota', 'IOTA', [(['k', 's', 's'], lambda k, a, d: ('ite', k.w == 0, NILT, ('newcons', a, uf('IOTA', ('num', k.w - 1), ('value', a.i + d.i), d))))])
    for nm, key, atom, one, two, eqr in (('list?', 'PROPER', False, False, True, False), ('circular-list?', 'CIRCULAR', False, False, False, True), ('dotted-list?', 'DOTTED', True, True, False, False)):
        op = R[key].op
        b = lambda v: (lambda *a: ('i1', v))
        rec(nm, key, [(['n', 'T'], b(key == 'PROPER')), (['w', 'T'], b(key == 'DOTTED')),
                      ([cells(1, 'n'), 'T'], b(key == 'PROPER')), ([cells(1, 'w'), 'T'], b(key == 'DOTTED')),
                      ([C2, C1], lambda x, y, op=op: ('ufb', op, x.cdr.cdr, y.cdr)),
                      ([C2, meets('x0')], b(eqr))])
    rec('last-pair', 'LASTPAIR', [([cells(1, 'n')], lambda x: x), ([cells(1, 'w')], lambda x: x), ([C2], lambda x: uf('LASTPAIR', x.cdr))])
    return obs


def meets(nm0):
    """the slow pointer one step before the fast one: its tail is the fast pointer's second tail"""
    def f(W, nm):
        return W.cons(W.opaque(nm), next(v for v in W.built if v.kind == 'tail'))
    f.label, f.grid = 'meets', None
    return f


def zext(v):
    return ('num', z3.SignExt(32, v.bv))


def nonneg(*ks):
    return lambda *args: [args[i].bv >= 0 for i in ks]


def callee(key, **kw):
    r = R[key]
    return Rec(r.name, r.op, r.args, r.ret, dec=None, proved=', proved by its own obligations', **kw)


APPEND_NIL = lambda W, st, vs: vs[1] if isinstance(vs[0], int) and vs[0] == NULLW else None


def prims():
    """the primitives, over the contracts of the functions they call; lists of any length"""
    obs = []
    P = lambda fn, kinds, term, key=None, **kw: obs.append(ob(fn, kinds, term, recs=[callee(key)] if isinstance(key, str) else (key or []), **kw))
    A = [callee('APPEND', clause=APPEND_NIL)]
    P('append', [], lambda: NILT, A)
    P('append', ['T'], lambda x: x, A)
    P('append', ['T', 'T'], lambda x, y: uf('APPEND', x, y), A)
    P('append', ['T', 'T', 'T'], lambda x, y, z: ('alt', uf('APPEND', uf('APPEND', x, y), z), uf('APPEND', x, uf('APPEND', y, z))), A)
    P('concatenate', [cells(1, 'n', 'T')], lambda x: x.car, A)
    P('concatenate', [cells(2, 'n', 'T')], lambda x: uf('APPEND', x.car, x.cdr.car), A)
    P('reverse', ['T'], lambda x: uf('REVAPP', x, NILT), 'REVAPP')
    P('append-reverse', ['T', 'T'], lambda x, y: uf('APPREV', x, y), 'APPREV')
    P('list-copy', ['T'], lambda x: uf('COPY', x), 'COPY')
    P('list-tail', ['T', 's'], lambda x, k: uf('TAIL', x, zext(k)), 'TAIL', pre=nonneg(1))
    P('drop', ['T', 's'], lambda x, k: uf('DROP', x, zext(k)), 'DROP', pre=nonneg(1))
    P('take', ['T', 's'], lambda x, k: uf('TAKE', x, zext(k)), 'TAKE', pre=nonneg(1))
    P('take-right', ['T', 's'], lambda x, k: uf('TAKERIGHT', x, uf('DROP', x, zext(k))), [callee('TAKERIGHT'), callee('DROP')], pre=nonneg(1))
    P('drop-right', ['T', 's'], lambda x, k: uf('DROPRIGHT', x, uf('DROP', x, zext(k))), [callee('DROPRIGHT'), callee('DROP')], pre=nonneg(1))
    P('list-ref', ['T', 's'], lambda x, k: uf(('car', 'TAIL'), x, zext(k)), [callee('TAIL', pair=True)], pre=nonneg(1))
    P('last-pair', ['T'], lambda x: uf('LASTPAIR', x), 'LASTPAIR')
    P('last', ['T'], lambda x: uf(('car', 'LASTPAIR'), x), [callee('LASTPAIR', pair=True)])
    P('make-list', ['s', 'o'], lambda k, x: uf('MAKE', zext(k), x), 'MAKE', pre=nonneg(0))
    P('iota', ['s', 's', 's'], lambda k, a, d: uf('IOTA', zext(k), a, d), 'IOTA', pre=nonneg(0))
    for nm, key in (('memq', 'MEMQ'), ('memv', 'MEMV'), ('assq', 'ASSQ'), ('assv', 'ASSV')):
        P(nm, ['o', 'T'], lambda x, y, op=R[key].op: uf(op, x, y), key)
    for nm, key in (('list?', 'PROPER'), ('circular-list?', 'CIRCULAR'), ('dotted-list?', 'DOTTED')):
        P(nm, ['T'], lambda x, op=R[key].op: ('bufb', op, x, x), key)
    P('alist-copy', ['T'], lambda x: uf('ALISTCOPY', x, NILT), 'MAPPAIR')
    P('cons', ['o', 'o'], lambda a, b: ('newcons', a, b))
    P('xcons', ['o', 'o'], lambda a, b: ('newcons', b, a))
    P('alist-cons', ['o', 'o', 'T'], lambda k, v, l: ('newcons', ('newcons', k, v), l))
    for k, v in (('n', 1), ('o', None), ('s', 0), ('b', 0), ('c', 0), ('d', 0), ('l', 0), ('r', 0)):
        if v is not None:
            P('null?', [k], lambda x, v=v: ('bool', bool(v)))
            P('pair?', [k], lambda x: ('bool', False))
    P('null?', [cells(1)], lambda x: ('bool', False))
    P('pair?', [cells(1)], lambda x: ('bool', True))
    P('null-list?', ['n'], lambda x: ('bool', True))
    P('null-list?', [cells(3, 'n')], lambda x: ('bool', False))
    for i, nm in enumerate(ORDINALS):
        P(nm, [cells(i + 1)], lambda x, i=i: items(x)[0][i])
    # c[ad]{1,4}r: the path through a tree known only along that path
    for n in (1, 2, 3, 4):
        for path in itertools.product('ad', repeat=n):
            nm = 'c%sr' % ''.join(path)
            P(nm, [along(path)], lambda x, path=path: follow(x, path), oracle=tree(path), grid=[(TREE,)])
    for nm, which in (('set-car!', 0), ('set-cdr!', 1)):
        obs.append(LOb(nm, [cells(1), 'o'], lambda x, y: ('any',), frame=False, check=lambda W, st, args, w, which=which: [
            ('the pair holds the new object', lists.goal(W, st, args[0].w, ('pair', args[0]) + ((args[1], args[0].cdr) if which == 0 else (args[0].car, args[1]))))],
            oracle=lambda a, d, x, which=which: Pair(x, d) if which == 0 else Pair(a, x), grid=[(S(0), S(1), S(2)), (1, L(2), L(3))],
            expr=lambda xs, nm=nm: '(let ((p (cons %s %s))) (m:%s p %s) p)' % (data.src(xs[0]), data.src(xs[1]), nm, data.src(xs[2]))))
    return obs


TREE = None


def _tree(n, c):
    if n == 0:
        c[0] += 1
        return Sym('t%d' % c[0])
    return Pair(_tree(n - 1, c), _tree(n - 1, c))


TREE = _tree(4, [0])


def follow(x, path):
    for c in reversed(path):
        x = x.car if c == 'a' else x.cdr
    return x


def tree(path):
    return lambda t: follow(t, path)


def along(path):
    def f(W, nm):
        v = W.opaque(nm)
        for c in path:
            o = W.opaque(nm + 'o')
            v = W.cons(v, o) if c == 'a' else W.cons(o, v)
        return v
    f.label, f.grid = ''.join(path), None
    return f


def ring(n, lead=0):
    """n pairs in a cycle, preceded by `lead` more"""
    def f(W, nm):
        v = W.list([W.opaque(nm) for _ in range(n + lead)], W.opaque(nm + 't'))
        last, first = v, v
        for _ in range(lead):
            first = first.cdr
        while last.cdr.kind == 'pair':
            last = last.cdr
        s = W.slot(last.w)
        W.ex.store(W.st, W.ref('vf_cdr', W.st, s), 8, first.w)
        last.cdr = first
        return v
    f.label, f.grid = 'ring%d+%d' % (n, lead), None
    return f


def bounded():
    """no contracts: everything unfolded, on lists of stated length"""
    obs = []
    M = 4

    def P(fn, kinds, term, **kw):
        obs.append(ob(fn, kinds, term, level='bounded', note='list lengths up to %d' % M, **kw))
    for n in range(M + 1):
        X = cells(n, 'n')
        for m in (0, 1, 2):
            Y = cells(m, 'n')
            P('append', [X, Y], lambda x, y: newlst(items(x)[0], y))
            P('append!', [X, Y], lambda x, y: lst(items(x)[0] + items(y)[0], NILT), frame=False)
            P('append-reverse', [X, Y], lambda x, y: newlst(items(x)[0][::-1], y))
            P('append-reverse!', [X, Y], lambda x, y: lst(items(x)[0][::-1] + items(y)[0], NILT), frame=False)
        P('append', [X, 'o'], lambda x, y: newlst(items(x)[0], y))
        P('append!', [X, 'w'], lambda x, y: lst(items(x)[0], y), frame=False)
        P('reverse', [X], lambda x: newlst(items(x)[0][::-1], NILT))
        P('reverse!', [X], lambda x: lst(items(x)[0][::-1], NILT), frame=False)
        P('list-copy', [X], lambda x: newlst(items(x)[0], NILT))
        P('list-copy', [cells(n, 'w')], lambda x: newlst(items(x)[0], items(x)[1]))
        P('length', [X], lambda x, n=n: ('int', n))
        P('length+', [X], lambda x, n=n: ('int', n))
        P('list?', [X], lambda x: ('bool', True))
        P('list?', [cells(n, 'w')], lambda x: ('bool', False))
        P('circular-list?', [X], lambda x: ('bool', False))
        P('circular-list?', [cells(n, 'w')], lambda x: ('bool', False))
        P('dotted-list?', [X], lambda x: ('bool', False))
        P('dotted-list?', [cells(n, 'w')], lambda x: ('bool', True))
        for k in range(n + 1):
            K = oblig_int(k)
            P('take', [X, K], lambda x, _, k=k: newlst(items(x)[0][:k], NILT))
            P('take!', [X, K], lambda x, _, k=k: lst(items(x)[0][:k], NILT), frame=False)
            P('drop', [X, K], lambda x, _, k=k: sub(x, k))
            P('list-tail', [X, K], lambda x, _, k=k: sub(x, k))
            P('take-right', [X, K], lambda x, _, k=k, n=n: sub(x, n - k))
            P('take-right', [cells(n, 'w'), K], lambda x, _, k=k, n=n: sub(x, n - k))
            P('drop-right', [X, K], lambda x, _, k=k, n=n: newlst(items(x)[0][:n - k], NILT))
            P('drop-right', [cells(n, 'w'), K], lambda x, _, k=k, n=n: newlst(items(x)[0][:n - k], NILT))
            P('drop-right!', [X, K], lambda x, _, k=k, n=n: lst(items(x)[0][:n - k], NILT), frame=False)
            if k < n:
                P('list-ref', [X, K], lambda x, _, k=k: items(x)[0][k])
        if n:
            P('last-pair', [X], lambda x, n=n: sub(x, n - 1))
            P('last-pair', [cells(n, 'w')], lambda x, n=n: sub(x, n - 1))
            P('last', [X], lambda x: items(x)[0][-1])
            P('circular-list', ['o'] * n, lambda *xs: ('any',), check=cycle)
            for lead in (0, 1, 2):
                P('list?', [ring(n, lead)], lambda x: ('bool', False))
                P('circular-list?', [ring(n, lead)], lambda x: ('bool', True))
                P('dotted-list?', [ring(n, lead)], lambda x: ('bool', False))
                P('length+', [ring(n, lead)], lambda x: ('bool', False))
                P('null-list?', [ring(n, lead)], lambda x: ('bool', False))
        P('list', ['o'] * n, lambda *xs: lst(list(xs), NILT))
        if n:
            P('cons*', ['o'] * n, lambda *xs: lst(list(xs[:-1]), xs[-1]))
        P('make-list', [oblig_int(n), 'o'], lambda k, x, n=n: newlst([x] * n, NILT))
        P('iota', [oblig_int(n)], lambda k, n=n: newlst([('int', i) for i in range(n)], NILT))
        P('iota', [oblig_int(n), 's'], lambda k, a, n=n: newlst([('value', a.i + i) for i in range(n)], NILT), pre=lambda k, a: [a.i >= -1000, a.i <= 2**31 - 2])
    for ns in itertools.product(range(3), repeat=3):
        P('append', [cells(n, 'n') for n in ns], lambda x, y, z: newlst(items(x)[0] + items(y)[0], z))
        P('append!', [cells(n, 'n') for n in ns], lambda x, y, z: lst(items(x)[0] + items(y)[0] + items(z)[0], NILT), frame=False)
        P('concatenate', [listof(ns)], lambda x: newlst(items(x.car)[0] + items(x.cdr.car)[0], x.cdr.cdr.car))
        P('concatenate!', [listof(ns)], lambda x: lst(sum([items(y)[0] for y in items(x)[0]], []), NILT), frame=False)
    for n in range(4):
        for el, q in (('s', eqvc), ('l', eqvc), ('c', eqvc)):
            for nm in ('memv',) + (('memq',) if el == 's' else ()):
                P(nm, [el, cells(n, 'n', el)], lambda x, y, q=q: first(q, x, y))
            for nm in ('assv',) + (('assq',) if el == 's' else ()):
                P(nm, [el, cells(n, 'n', entry(el))], lambda x, y, q=q: firstkey(q, x, y))
        P('alist-copy', [cells(n, 'n', entry('o'))], lambda x: newlst([('newcons', e.car, e.cdr) for e in items(x)[0]], NILT))
    return obs


def first(q, x, y):
    if y.kind != 'pair':
        return FALSE
    return ('ite', q(x, y.car), y, first(q, x, y.cdr))


def firstkey(q, x, y):
    if y.kind != 'pair':
        return FALSE
    return ('ite', q(x, y.car.car), y.car, firstkey(q, x, y.cdr))


def sub(x, k):
    for _ in range(k):
        x = x.cdr
    return x


def oblig_int(k):
    def f(W, nm):
        return W.small_c(k)
    f.label, f.grid = str(k), [k]
    return f


def listof(ns):
    def f(W, nm):
        return W.list([cells(n, 'n')(W, nm + str(i)) for i, n in enumerate(ns)])
    f.label, f.grid = 'list-of' + '-'.join(map(str, ns)), None
    return f


def cycle(W, st, args, w):
    """the result is a ring of fresh pairs holding the arguments in order"""
    out = []
    p = w
    seen = []
    for a in args:
        if not lists.ispair(W, st, p) or p in seen:
            return [('a ring of the arguments', False)]
        seen.append(p)
        c = lists.carcdr(W, st, p)
        out.append(('element', lists.weq(W, c[0], a.w)))
        p = c[1]
    out.append(('the last pair leads back to the first', p == w))
    return out


def obs(tier):
    return ind() + prims() + bounded()
