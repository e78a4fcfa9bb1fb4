"""Strings (B05), vectors and homogeneous vectors (B06): every procedure against its definition on the sequence of elements."""
import itertools
import z3
from vf import data, flt, oblig, smt, sym
from vf.data import Char, Err, Flo, Nil, Str, Vec, plist
from vf.ext import Table, stdstring
from vf.stream import put_string
from vf.numspec import bool_is, int_is
from vf.oblig import Ob
from vf.sym import Ptr, is_c
from .chars import U32, bv32, case
from . import ports
from .ports import real_text
from .objects import same_arg, HV

IMP = '(scheme base) (scheme write) (prefix (meevax list) l:) ' + ' '.join('(prefix (meevax %s) m:)' % l for l in ('string', 'vector', 'vector homogeneous'))


def label(f, l, grid):
    f.label, f.grid = l, grid
    return f


class HVd(data.Raw):
    def __init__(self, t, xs):
        data.Raw.__init__(self, '(m:%svector%s)' % (t, ''.join(' ' + data.src(x) for x in xs)), 'hv')
        self.xs = list(xs)


class Seqs:
    """a type of sequences"""

    def same(self, a, b):
        return self.bits(a) == self.bits(b)

    def bits(self, x):
        return z3.BitVecVal(x & ((1 << self.w) - 1), self.w) if isinstance(x, int) else x

    def read(self, W, st, w):
        """the elements of the object w, or None when it is none of this type"""
        out = None
        for s, v in W.decode(st, w):
            if v.kind != self.kind:
                return None
            out = getattr(v, self.field)
            if v.size != len(out):
                return None
        return out

    def is_(self, W, st, w, els, what=''):
        got = self.read(W, st, w)
        if got is None or len(got) != len(els):
            return [(what + '%d elements' % len(els), False)]
        return [(what + 'element %d' % i, self.same(a, b)) for i, (a, b) in enumerate(zip(got, els))]

    def new(self, W, w, args):
        b = W.ex.bv(w, 64)
        return [('a new object', b != W.ex.bv(a.w, 64)) for a in args if getattr(a, 'els', None) is not None]

    def seq(self, n):
        def f(W, nm):
            xs = [self.el(W, '%s.%d' % (nm, i)) for i in range(n)]
            v = self.make(W, xs)
            v.els = [self.of(x) for x in xs]
            v.xs = xs
            return v
        return label(f, '%s[%d]' % (self.name, n), self.grid(n))


class Strings(Seqs):
    name, kind, field, w = 'string', 'string', 'cps', 32
    toname = 'string'

    def el(self, W, nm):
        return W.char(nm)

    def of(self, v):
        return v.cp

    def make(self, W, xs):
        return W.string(xs)

    def elkind(self):
        return label(lambda W, nm: W.char(nm), 'char', self.elgrid)

    def grid(self, n):
        return [Str([a + i for i in range(n)]) for a in (0x41, 0x3bb)][:2 if n else 1]

    def datum(self, xs):
        return Str([x.cp for x in xs])

    def els(self, d):
        return [Char(c) for c in d.cps]

    def isel(self, W, st, w, b):
        d = W.decode(st, w)
        return [('a character', all(v.kind == 'char' for s, v in d)), ('the element', z3.And([bv32(v.cp) == bv32(b) for s, v in d if v.kind == 'char'] or [z3.BoolVal(False)]))]

    elgrid = [Char(c) for c in (0, 0x41, 0x1f600)]
    show = '%s'


class Vectors(Seqs):
    name, kind, field, w = 'vector', 'vector', 'words', 64

    def el(self, W, nm):
        return W.opaque(nm)

    def of(self, v):
        return v.w

    def make(self, W, xs):
        return W.vector(xs)

    def elkind(self):
        return label(lambda W, nm: W.opaque(nm), 'o', self.elgrid)

    def grid(self, n):
        return [Vec([data.Sym('xyzabc'[i]) for i in range(n)]), Vec([i * 3 + 1 for i in range(n)])][:2 if n else 1]

    def datum(self, xs):
        return Vec(xs)

    def els(self, d):
        return list(d.xs)

    def isel(self, W, st, w, b):
        return [('the element', W.ex.bv(w, 64) == W.ex.bv(b, 64))]

    elgrid = [data.Sym('q'), 7, Char(65)]
    show = '%s'


class Hom(Seqs):
    field = 'elems'

    def __init__(self, t):
        self.t, self.name, self.kind = t, t + 'vector', t + 'vector'
        self.w = int(t[1:])
        self.show = '(m:%svector->list %%s)' % t
        self.lo, self.hi = (0, (1 << self.w) - 1) if t[0] == 'u' else (-(1 << self.w - 1), (1 << self.w - 1) - 1)
        self.elgrid = [Flo(1.5), Flo(-2.0)] if t[0] == 'f' else [self.lo, 1, self.hi]

    def el(self, W, nm):
        """a value the vector can hold, as an argument"""
        if self.t == 'f32':
            return W.float_(nm)
        if self.t == 'f64':
            return W.double(nm)
        v = W.small(nm)
        W.st.assume(z3.And(v.i >= self.lo, v.i <= self.hi))
        return v

    def of(self, v):
        if self.t[0] == 'f':
            return v.bits
        if self.w <= 32:
            return z3.Extract(self.w - 1, 0, v.bv)
        return z3.SignExt(self.w - 32, v.bv)

    def elkind(self):
        return label(lambda W, nm: self.el(W, nm), self.t, self.elgrid)

    def seq(self, n):
        if self.t[0] == 'f':
            mk = lambda W, nm: [self.of(self.el(W, '%s.%d' % (nm, i))) for i in range(n)]
        else:
            mk = lambda W, nm: [smt.fresh_bv('%s.%d' % (nm, i), self.w) for i in range(n)]

        def f(W, nm):
            v = W.obj(self.name, n)
            p = W.run1('vf_%s_data' % self.name, [W.slot(v.w)])
            v.els = mk(W, nm)
            for i, x in enumerate(v.els):
                W.ex.store(W.st, Ptr(p.r, W.ex.add64(p.off, i * self.w // 8)), self.w // 8, x)
            return v
        return label(f, '%s[%d]' % (self.name, n), self.grid(n))

    def grid(self, n):
        xs = [Flo(1.5), Flo(-2.0), Flo(0.25), Flo(8.0)] if self.t[0] == 'f' else [self.hi, self.lo, 1, 5]
        return [HVd(self.t, [xs[i % 4] for i in range(n)]), HVd(self.t, [xs[3 - i % 4] for i in range(n)])][:2 if n else 1]

    def datum(self, xs):
        return plist(xs)

    def els(self, d):
        return list(d.xs)

    def isel(self, W, st, w, b):
        out = []
        for s, v in W.decode(st, w):
            if self.t[0] == 'f':
                out += [('a number of the precision of the vector', v.kind == ('float' if self.w == 32 else 'double'))]
                if v.kind in ('float', 'double'):
                    out += [('the element', z3.Or(W.ex.bv(v.bits, self.w) == b, z3.And(isnan(b), isnan(W.ex.bv(v.bits, self.w)))))]
            else:
                c = z3.And([z3.BoolVal(True)] + list(s.pc[len(st.pc):]))
                out += [(l, z3.Implies(c, g if not isinstance(g, bool) else z3.BoolVal(g))) for l, g in int_is(v, z3.BV2Int(b, is_signed=self.t[0] == 's'))]
        return out


def isnan(b):
    n = b.size()
    e, m = (8, 23) if n == 32 else (11, 52)
    return z3.And(z3.Extract(n - 2, m, b) == (1 << e) - 1, z3.Extract(m - 1, 0, b) != 0)


STR, VEC = Strings(), Vectors()
HOM = [Hom(t) for t in HV]


class ElOb(Ob):
    """the result is element `b` of the type (forks while decoding)"""


def listwords(W, st, w):
    out = []
    while True:
        d = W.decode(st, w)
        if len(d) != 1:
            return None
        v = d[0][1]
        if v.kind == 'null':
            return out
        if v.kind != 'pair':
            return None
        out.append(v.car_w)
        w = v.cdr_w


def islist(T, W, st, w, els):
    ws = listwords(W, st, w)
    if ws is None or len(ws) != len(els):
        return [('a list of %d elements' % len(els), False)]
    out = []
    for i, (a, b) in enumerate(zip(ws, els)):
        out += [('%d: %s' % (i, l), g) for l, g in T.isel(W, st, a, b)]
    return out


def unchanged(W, st, xs, skip=()):
    out = []
    for i, x in enumerate(xs):
        if i not in skip and getattr(x, 'els', None) is not None:
            T = TYPES[x.kind]
            out += T.is_(W, st, x.w, x.els, 'argument %d unchanged: ' % i)
    return out


TYPES = {t.kind: t for t in [STR, VEC] + HOM}


def ob(fn, kinds, goal, oracle, err=False, show='%s', mut=None, **kw):
    """goal(W, st, xs, w); arguments that are sequences are unchanged except number `mut`"""
    def post(W, st, xs, w):
        if err:
            return []
        return goal(W, st, xs, w) + unchanged(W, st, xs, () if mut is None else (mut,))

    def expr(xs):
        if mut is not None and not err:
            return None
        return show % ('(m:%s%s)' % (fn, ''.join(' ' + data.src(x) for x in xs)))
    kw.setdefault('expr', expr)
    kw.setdefault('level', 'bounded')
    return Ob(fn, kinds, post, oracle=(lambda *xs: Err) if err else oracle, err=(lambda *xs: True) if err else None, frame=False, raw=True, imports=IMP, **kw)


def ranges(n):
    """argument lists [], [a], [a, b] with the range they denote"""
    yield [], 0, n
    for a in range(n + 1):
        yield [a], a, n
        for b in range(a, n + 1):
            yield [a, b], a, b


Err = data.Err()


def common(T, full=True):
    """procedures every sequence type has"""
    N = T.name
    obs = []
    E = T.elkind()
    for n in range(4):
        # length, ref, set!
        obs.append(ob(N + '-length', [T.seq(n)], lambda W, st, xs, w, n=n: [('the length', W.ex.bv(w, 64) == z3.BitVecVal((0x7ffa << 48) | n, 64))], lambda s: len(T.els(s))))
        for i in list(range(n)) + [-1, n, n + 1, 1 << 40]:
            ok = 0 <= i < n
            obs.append(ob(N + '-ref', [T.seq(n), i], lambda W, st, xs, w, i=i: T.isel(W, st, w, xs[0].els[i]), lambda s, i: T.els(s)[i], err=not ok))
            obs.append(ob(N + '-set!', [T.seq(n), i, E], lambda W, st, xs, w, i=i: T.is_(W, st, xs[0].w, xs[0].els[:i] + [T.of(xs[2])] + xs[0].els[i + 1:]),
                          lambda s, i, x: T.datum(T.els(s)[:i] + [x] + T.els(s)[i + 1:]), err=not ok, mut=0,
                          expr=lambda xs: '(let ((s %s)) (m:%s-set! s %s %s) %s)' % (data.src(xs[0]), N, xs[1], data.src(xs[2]), T.show % 's')))
        # constructors
        obs.append(ob(N, [E] * n, lambda W, st, xs, w: T.is_(W, st, w, [T.of(x) for x in xs]), lambda *xs: T.datum(xs), show=T.show))
        obs.append(ob('make-' + N, [n, E], lambda W, st, xs, w, n=n: T.is_(W, st, w, [T.of(xs[1])] * n), lambda n, x: T.datum([x] * n), show=T.show))
        obs.append(ob('make-' + N, [n], lambda W, st, xs, w, n=n: [('%d elements' % n, (lambda g: g is not None and len(g) == n)(T.read(W, st, w)))], lambda n: n, expr=lambda xs: '(m:%s-length (m:make-%s %d))' % (N, N, xs[0])))
        # lists
        obs.append(ob('list->' + N, [lst(*[E] * n)], lambda W, st, xs, w: T.is_(W, st, w, [T.of(x) for x in xs[0].items]), lambda l: T.datum(data.unlist(l)[0]), show=T.show, expr=lambda xs: T.show % ('(m:list->%s %s)' % (N, data.src(xs[0])))))
        for r, a, b in ranges(n):
            obs.append(ob(N + '->list', [T.seq(n)] + r, lambda W, st, xs, w, a=a, b=b: islist(T, W, st, w, xs[0].els[a:b]), lambda s, *r, a=a, b=b: plist(T.els(s)[a:b])))
            obs.append(ob(N + '-copy', [T.seq(n)] + r, lambda W, st, xs, w, a=a, b=b: T.is_(W, st, w, xs[0].els[a:b]) + T.new(W, w, xs), lambda s, *r, a=a, b=b: T.datum(T.els(s)[a:b]), show=T.show))
    # append
    for ns in [(), (0,), (2,), (1, 0), (0, 1), (2, 1), (1, 2), (1, 1, 1), (0, 2, 1), (3, 0, 2), (1, 2, 1, 1)]:
        obs.append(ob(N + '-append', [T.seq(n) for n in ns], lambda W, st, xs, w: T.is_(W, st, w, [e for x in xs for e in x.els]) + T.new(W, w, xs), lambda *xs: T.datum([e for x in xs for e in T.els(x)]), show=T.show))
    # copy!
    for n, m in ((3, 3), (4, 2)) if full else ((3, 2),):
        for r, a, b in ranges(m):
            for at in range(n - (b - a) + 1):
                obs.append(copyto(T, n, m, at, r, a, b))
    for n in (3, 4) if full else (3,):
        for r, a, b in ranges(n):
            for at in range(n - (b - a) + 1):
                obs.append(copyto(T, n, None, at, r, a, b))
    return obs


def copyto(T, n, m, at, r, a, b):
    N = T.name

    def goal(W, st, xs, w):
        src = xs[2].els
        want = list(xs[0].els)
        want[at:at + b - a] = src[a:b]
        return T.is_(W, st, xs[0].w, want) + ([] if m is None else T.is_(W, st, xs[2].w, src, 'source unchanged: '))

    def oracle(s, i, t, *r):
        x, y = T.els(s), T.els(s if m is None else t)
        x[at:at + b - a] = y[a:b]
        return T.datum(x)
    o = ob(N + '-copy!', [T.seq(n), at, same_arg if m is None else T.seq(m)] + r, goal, oracle, mut=0,
           name='%s-copy! %s[%d] %d %s %s' % (N, N, n, at, 'the same' if m is None else '%s[%d]' % (N, m), r),
           grid=(lambda: [(g, at, g) + tuple(r) for g in T.grid(n)]) if m is None else None,
           expr=lambda xs: '(let ((s %s)) (m:%s-copy! s %d %s%s) %s)' % (data.src(xs[0]), N, at, 's' if m is None else data.src(xs[2]), ''.join(' %d' % k for k in r), T.show % 's'))
    if m is None:
        # the source is the very same object: only the mutated contents are asserted
        post = o.post
        o.post = lambda W, st, xs, w: goal(W, st, xs, w)
    return o


def lst(*ks):
    def f(W, nm):
        xs = [oblig.mk(W, k, '%s.%d' % (nm, i)) for i, k in enumerate(ks)]
        v = W.list(xs)
        v.items = xs
        return v
    return label(f, '(%s)' % ' '.join(k if isinstance(k, str) else k.label for k in ks), [plist(t) for t in itertools.islice(itertools.product(*[oblig.grid(k)[:3] for k in ks]), 12)])


def fill(T):
    obs = []
    N = T.name
    for n in range(4):
        for r, a, b in ranges(n):
            obs.append(ob(N + '-fill!', [T.seq(n), T.elkind()] + r, lambda W, st, xs, w, a=a, b=b: T.is_(W, st, xs[0].w, [T.of(xs[1]) if a <= i < b else e for i, e in enumerate(xs[0].els)]),
                          lambda s, x, *r, a=a, b=b: T.datum([x if a <= i < b else e for i, e in enumerate(T.els(s))]), mut=0,
                          expr=lambda xs: '(let ((s %s)) (m:%s-fill! s%s) %s)' % (data.src(xs[0]), N, ''.join(' ' + data.src(x) for x in xs[1:]), T.show % 's')))
    return obs


def between():
    """string->vector and vector->string"""
    obs = []
    cv = lambda n: label(lambda W, nm: charvec(W, nm, n), 'vector of %d characters' % n, [Vec([Char(0x41 + i) for i in range(n)])])
    for n in range(4):
        for r, a, b in ranges(n):
            obs.append(ob('string->vector', [STR.seq(n)] + r, lambda W, st, xs, w, a=a, b=b: vecchars(W, st, w, xs[0].els[a:b]), lambda s, *r, a=a, b=b: Vec(STR.els(s)[a:b])))
            obs.append(ob('vector->string', [cv(n)] + r, lambda W, st, xs, w, a=a, b=b: STR.is_(W, st, w, [x.cp for x in xs[0].xs][a:b]), lambda s, *r, a=a, b=b: Str([c.cp for c in s.xs[a:b]])))
    return obs


def charvec(W, nm, n):
    xs = [W.char('%s.%d' % (nm, i)) for i in range(n)]
    v = W.vector(xs)
    v.xs, v.els = xs, [x.w for x in xs]
    return v


def vecchars(W, st, w, cps):
    ws = VEC.read(W, st, w)
    if ws is None or len(ws) != len(cps):
        return [('a vector of %d elements' % len(cps), False)]
    return [g for a, b in zip(ws, cps) for g in STR.isel(W, st, a, b)]


# ---------------------------------------------------------------- comparison
DOWN = Table()
down = z3.Function('downcase', z3.BitVecSort(32), z3.BitVecSort(32))


@DOWN.r(r'^meevax::character::downcase\(\)', cname='meevax::character::downcase (contract, proved in B04)')
def _(cx, p):
    c = down(cx.ex.bv(cx.ex.load(cx.st, cx.ex.toptr(cx.st, p), 4), 32))
    cx.st.assume(z3.ULE(c, U32(0x10ffff)))
    return c


def points(*xs):
    return [z3.ULE(bv32(c), U32(0x10ffff)) for x in xs for c in x.els]


def lt(a, b):
    """lexicographic order"""
    if not b:
        return z3.BoolVal(False)
    if not a:
        return z3.BoolVal(True)
    return z3.Or(z3.ULT(a[0], b[0]), z3.And(a[0] == b[0], lt(a[1:], b[1:])))


def eq(a, b):
    return z3.And([x == y for x, y in zip(a, b)] or [z3.BoolVal(True)]) if len(a) == len(b) else z3.BoolVal(False)


REL = {'=': (eq, lambda a, b: a == b), '<': (lt, lambda a, b: a < b), '>': (lambda a, b: lt(b, a), lambda a, b: a > b),
       '<=': (lambda a, b: z3.Not(lt(b, a)), lambda a, b: a <= b), '>=': (lambda a, b: z3.Not(lt(a, b)), lambda a, b: a >= b)}


def compare():
    obs = []
    for op, (f, g) in REL.items():
        for ci in (False, True):
            for ns in [(1,)] + list(itertools.product(range(3), repeat=2)) + [(3, 3), (2, 3), (3, 1)] + [(1, 1, 1), (0, 1, 2), (2, 1, 2), (1, 1, 1, 1)]:
                def goal(W, st, xs, w, f=f, ci=ci):
                    es = [[down(bv32(c)) if ci else bv32(c) for c in x.els] for x in xs]
                    c = z3.And([f(a, b) for a, b in zip(es, es[1:])] or [z3.BoolVal(True)])
                    return [('the relation', W.ex.bv(w, 64) == z3.If(c, z3.BitVecVal((0x7ff9 << 48) | 1, 64), z3.BitVecVal(0x7ff9 << 48, 64)))]

                def oracle(*xs, g=g, ci=ci):
                    es = [[case(3, c) if ci else c for c in x.cps] for x in xs]
                    return all(g(a, b) for a, b in zip(es, es[1:]))
                al = (0x41, 0x61, 0x62, 0x42) if ci else (0x41, 0x42, 0x3bb)
                grid = lambda ns=ns, al=al: list(itertools.islice(itertools.product(*[[Str(t) for t in itertools.product(al[:3 if sum(ns) > 3 else 4], repeat=n)] for n in ns]), 300))
                obs.append(ob('string%s%s?' % ('-ci' if ci else '', op), [STR.seq(n) for n in ns], goal, oracle, grid=grid, pre=points, setup=lambda W: W.ex.__setattr__('contracts', [DOWN] + list(W.ex.contracts))))
    return obs


def convert():
    """storing a number of another representation"""
    obs = []
    D, F = z3.Float64(), z3.Float32()
    fp = lambda b, s: z3.fpBVToFP(b, s)
    R = z3.RNE()
    for T in HOM:
        if T.t in ('s64', 'u64'):
            k = label(lambda W, nm, T=T: inrange(W, W.large(nm), T), 'large', [1 << 31, T.hi, (T.lo if T.lo else 1 << 40), (1 << 53) + 1])
            cases = [(k, lambda v: v.i)]
        elif T.t == 'f64':
            cases = [('s', lambda v: flt.of_int(v.bv)), ('f', lambda v: z3.fpToIEEEBV(z3.fpFPToFP(R, fp(v.bits, F), D)))]
        elif T.t == 'f32':
            cases = [('s', lambda v: z3.fpToIEEEBV(z3.fpSignedToFP(R, v.bv, F))), ('d', lambda v: z3.fpToIEEEBV(z3.fpFPToFP(R, fp(v.bits, D), F)))]
        else:
            continue
        for k, f in cases:
            def same(a, b, T=T):
                return z3.Or(a == b, z3.And(isnan(a), isnan(b))) if T.t[0] == 'f' else smt.sint(a) == b if T.t[0] == 's' else smt.uint(a) == b

            def goal(W, st, xs, w, f=f, T=T, same=same):
                e = T.read(W, st, xs[0].w)
                if e is None or len(e) != 2:
                    return [('two elements', False)]
                return [('the other element', T.same(e[1], xs[0].els[1])), ('the stored value', same(W.ex.bv(e[0], T.w), f(xs[2])))]
            N = T.name
            obs.append(ob(N + '-set!', [T.seq(2), 0, k], goal, lambda s, i, x, T=T: data.ANY if T.t == 'f32' else plist([conv(T, x), T.els(s)[1]]), mut=0, level='proof' if False else 'bounded', name='%s-set! converting %s' % (N, k if isinstance(k, str) else k.label),
                          expr=lambda xs, T=T: '(let ((s %s)) (m:%s-set! s 0 %s) %s)' % (data.src(xs[0]), T.name, data.src(xs[2]), T.show % 's')))
    return obs


def inrange(W, v, T):
    W.st.assume(z3.And(v.i >= T.lo, v.i <= T.hi))
    return v


def conv(T, x):
    if T.t[0] != 'f':
        return x
    v = float(x.v) if isinstance(x, Flo) else float(x)
    return Flo(v)


def b05(tier):
    return common(STR) + fill(STR) + between() + compare() + symbols()


def b06(tier):
    obs = common(VEC) + fill(VEC)
    for T in HOM:
        obs += common(T, full=tier == 'thorough')
    return obs + convert()


def vec():
    return common(VEC) + fill(VEC)


def st():
    return common(STR) + fill(STR) + between()


def hom():
    return [o for T in HOM for o in common(T, False)]


# ---------------------------------------------------------------- symbols
SYM = Table()
UM = r'std::unordered_map<std::(?:__cxx11::)?(?:basic_)?string.*, meevax::object, .*>::'


def decide(cx, c):
    """the truth of c on this path; forks when it is open"""
    c = z3.simplify(c) if not isinstance(c, bool) else c
    if isinstance(c, bool) or z3.is_true(c) or z3.is_false(c):
        return c is True or (not isinstance(c, bool) and z3.is_true(c))
    a, b = cx.ex.feasible(cx.st, c), cx.ex.feasible(cx.st, z3.Not(c))
    if a and b:
        raise sym.NeedFork(c)
    return a


def find(cx, m, key):
    m = cx.ex.toptr(cx.st, m)
    bs = tuple(stdstring(cx, key))
    entries = cx.st.reg(m.r).ghost.get('map', ())
    for k, node in entries:
        if len(k) == len(bs) and decide(cx, z3.And([z3.BoolVal(True)] + [cx.ex.bv(a, 8) == cx.ex.bv(b, 8) for a, b in zip(k, bs)])):
            return m, bs, entries, node
    return m, bs, entries, None


@SYM.r('^' + UM + r'find\(', cname='std::unordered_map::find')
def _(cx, m, key):
    node = find(cx, m, key)[3]
    return 0 if node is None else node


@SYM.r('^' + UM + r'end\(\)', cname='std::unordered_map::end')
def _(cx, m):
    return 0


@SYM.r('^' + UM + r'~?unordered_map\(', cname='std::unordered_map')
def _(cx, m, *a):
    return None


@SYM.r(r'> ' + UM + r'emplace<', cname='std::unordered_map::emplace')
def _(cx, m, key, x):
    m, bs, entries, node = find(cx, m, key)
    if node is not None:
        return [node, 0]
    n = Ptr(cx.ex.alloc(cx.st, 56, 'map node', 'heap'), 0)
    put_string(cx, Ptr(n.r, 8), bs)
    cx.ex.store(cx.st, Ptr(n.r, 40), 8, cx.ex.load(cx.st, cx.ex.toptr(cx.st, x), 8))
    cx.st.wreg(m.r).ghost['map'] = entries + ((bs, n),)
    return [n, 1]


def interned(W):
    real_text(W)
    W.ex.contracts = [SYM] + list(W.ex.contracts)


def symbols():
    obs = []
    for a, b in [((), ()), ((1,), (1,)), ((1,), ()), ((1, 1), (1, 1)), ((3,), (3,)), ((2, 1), (1,)), ((1, 1, 1), (1, 1, 1))]:
        ka, kb = ports.text(*a), ports.text(*b)

        def post(W, st, xs, rs):
            r = [W.ex.bv(w, 64) for w in rs]
            same = ports.same_bytes(xs[0].bs, xs[1].bs)
            same = z3.BoolVal(same) if isinstance(same, bool) else same
            return [('the same name, the same symbol', z3.Implies(same, r[0] == r[1])), ('other names, other symbols', z3.Implies(z3.Not(same), r[0] != r[1])),
                    ('again the same symbol', r[0] == r[2])] + STR.is_(W, st, rs[3], xs[0].cs, 'name: ') + STR.is_(W, st, rs[4], xs[1].cs, 'name: ')
        obs.append(oblig.Seq('interning %s %s' % (a, b), [ka, kb], [('string->symbol', [('x', 0)]), ('string->symbol', [('x', 1)]), ('string->symbol', [('x', 0)]), ('symbol->string', [('r', 0)]), ('symbol->string', [('r', 1)])], post,
                             level='bounded', setup=interned, imports=IMP + ' (prefix (meevax symbol) y:)',
                             oracle=lambda x, y: plist([x == y, True, x, y]),
                             expr=lambda xs: '(let* ((x %s) (y %s) (a (y:string->symbol x)) (b (y:string->symbol y))) (list (eq? a b) (eq? a (y:string->symbol x)) (y:symbol->string a) (y:symbol->string b)))' % (data.src(xs[0]), data.src(xs[1]))))
    return obs
