"""D03: the list procedures written in Scheme (SRFI 1, R7RS map, for-each, member, assoc, apply and
the string and vector versions)."""
import itertools
from vf.scm import NIL, UNSPEC, Pair, Char, Str, Vec, Atom, Prim, lst, items, S
from vf.scmob import SOb, ANYV, Raises, machine
from vf.scmprim import P, eqv, equal

L1 = '(srfi 1)'
N = 4


def T(run, u, *a):
    return run.unknown(u, list(a))


def values(*xs):
    return lst(xs)


def zipn(*ls):
    return list(zip(*[items(l) for l in ls]))


EQ = Prim('eqv?', P['eqv?'])


def obs(tier='quick'):
    out = []

    def o(lib, fn, build, spec, name, **kw):
        out.append(SOb(lib, fn, build, spec, name=name, **kw))

    lens = range(0, N + (tier != 'quick'))
    pairs2 = [(a, b) for a in range(0, 3) for b in range(0, 3)]
    trip = [(2, 2, 2), (2, 1, 2), (1, 2, 0)]

    def ls(b, ns):
        return [b.list(n, 'xyz'[i]) for i, n in enumerate(ns)]

    # ---- one list and a procedure
    def one(fn, spec, kind='pred', lib=L1, **kw):
        for n in lens:
            o(lib, fn, lambda b, n=n: [getattr(b, kind)('p' if kind == 'pred' else 'f'), b.list(n)], spec, '%s of %d elements' % (fn, n), **kw)

    def many(fn, spec, kind='pred', lib=L1, pre=(), shapes=pairs2 + trip, **kw):
        for ns in shapes:
            o(lib, fn, lambda b, ns=ns: [getattr(b, kind)('p' if kind == 'pred' else 'f')] + [b.atom(x) for x in pre] + ls(b, ns), spec,
              '%s of lists of %s elements' % (fn, ', '.join(map(str, ns))), **kw)

    def filt(run, p, x):
        return lst([e for e in items(x) if T(run, p, e)])

    def rem(run, p, x):
        return lst([e for e in items(x) if not T(run, p, e)])
    one('filter', filt, trace='any')
    one('remove', rem, trace='any')
    one('filter!', filt, trace='any', frame=False)
    one('remove!', rem, trace='any', frame=False)

    def part(run, p, x):
        a, c = [], []
        for e in items(x):
            (a if T(run, p, e) else c).append(e)
        return values(lst(a), lst(c))
    one('partition', part, trace='any', multi=True)
    one('partition!', part, trace='any', multi=True, frame=False)

    def find(run, p, x):
        for e in items(x):
            if T(run, p, e):
                return e
        return False

    def find_tail(run, p, x):
        while x is not NIL:
            if T(run, p, x.car):
                return x
            x = x.cdr
        return False
    one('find', find)
    one('find-tail', find_tail)

    def take_while(run, p, x):
        r = []
        for e in items(x):
            if not T(run, p, e):
                break
            r.append(e)
        return lst(r)

    def drop_while(run, p, x):
        while x is not NIL and T(run, p, x.car):
            x = x.cdr
        return x

    def span(run, p, x):
        r = []
        while x is not NIL and T(run, p, x.car):
            r.append(x.car)
            x = x.cdr
        return values(lst(r), x)

    def brk(run, p, x):
        r = []
        while x is not NIL and not T(run, p, x.car):
            r.append(x.car)
            x = x.cdr
        return values(lst(r), x)
    one('take-while', take_while)
    one('take-while!', take_while, frame=False)
    one('drop-while', drop_while)
    one('span', span, multi=True)
    one('break', brk, multi=True)

    def cp(f):
        return lambda run, p, x: f(run, p, lst(items(x)))
    one('span!', cp(span), multi=True, frame=False)
    one('break!', cp(brk), multi=True, frame=False)

    # ---- any number of lists
    def any_(run, p, *xs):
        for a in zipn(*xs):
            v = T(run, p, *a)
            if v is not False:
                return v
        return False

    def every(run, p, *xs):
        v = True
        for a in zipn(*xs):
            v = T(run, p, *a)
            if v is False:
                return False
        return v

    def index(run, p, *xs):
        for i, a in enumerate(zipn(*xs)):
            if T(run, p, *a):
                return i
        return False

    def count(run, p, *xs):
        return sum(1 for a in zipn(*xs) if T(run, p, *a))

    def filter_map(run, p, *xs):
        return lst([v for v in [T(run, p, *a) for a in zipn(*xs)] if v is not False])

    def map_(run, f, *xs):
        return lst([T(run, f, *a) for a in zipn(*xs)])

    def foreach(run, f, *xs):
        for a in zipn(*xs):
            T(run, f, *a)
        return ANYV

    def appendmap(run, f, *xs):
        r = [T(run, f, *a) for a in zipn(*xs)]
        return lst([y for v in r for y in items(v)])
    for fn, sp, tr in (('any', any_, 'order'), ('every', every, 'order'), ('list-index', index, 'order'), ('count', count, 'order'), ('filter-map', filter_map, 'any')):
        one(fn, sp, trace=tr)
        many(fn, sp, trace=tr)
    for lib, fn, sp, tr in (('(scheme base)', 'map', map_, 'any'), (L1, 'map', map_, 'any'), (L1, 'map-in-order', map_, 'order'), ('(scheme base)', 'for-each', foreach, 'order')):
        one(fn, sp, kind='fun', trace=tr, lib=lib)
        many(fn, sp, kind='fun', trace=tr, lib=lib)

    def mapset(run, f, *xs):
        return lst([T(run, f, *a) for a in zipn(*xs)])
    one('map!', mapset, kind='fun', trace='any', frame=False)
    many('map!', mapset, kind='fun', trace='any', frame=False, shapes=[(1, 1), (1, 2), (2, 2), (2, 3, 2)])

    def listfun(b, name='f'):
        # an unknown procedure that returns a new list of zero to two objects
        def fn(run, a):
            v = run.unknown(u, a)
            n = int(bool(run.choose(('len', v.name, 0)))) + int(bool(run.choose(('len', v.name, 1))))
            d = run.world.setdefault('lists', {})
            key = v.name
            return lst(d.setdefault(key, [Atom('%s.%d' % (v.name, i)) for i in range(n)]))
        u = b.fun(name, fn=fn)
        return u

    def lv(run, u, a):
        return items(u.fn(run, a))
    for fn in ('append-map', 'append-map!'):
        for ns in [(n,) for n in range(4)] + [(1, 2), (2, 1), (2, 2), (0, 1), (2, 2, 2)]:
            def spec(run, f, *xs):
                return lst([y for v in [lv(run, f, list(a)) for a in zipn(*xs)] for y in v])
            o(L1, fn, lambda b, ns=ns: [listfun(b)] + ls(b, ns), spec, '%s of lists of %s elements' % (fn, ', '.join(map(str, ns))), trace='any')

    def fold(run, f, z, *xs):
        for a in zipn(*xs):
            z = T(run, f, *a, z)
        return z

    def foldr(run, f, z, *xs):
        for a in reversed(zipn(*xs)):
            z = T(run, f, *a, z)
        return z

    def tails(x):
        r = []
        while x is not NIL:
            r.append(x)
            x = x.cdr
        return r

    def pfold(run, f, z, *xs):
        for a in zip(*[tails(x) for x in xs]):
            z = T(run, f, *a, z)
        return z

    def pfoldr(run, f, z, *xs):
        for a in reversed(list(zip(*[tails(x) for x in xs]))):
            z = T(run, f, *a, z)
        return z

    def pforeach(run, f, *xs):
        for a in zip(*[tails(x) for x in xs]):
            T(run, f, *a)
        return ANYV
    shapes1 = [(n,) for n in lens]
    for fn, sp in (('fold', fold), ('fold-right', foldr), ('pair-fold', pfold), ('pair-fold-right', pfoldr)):
        many(fn, sp, kind='fun', pre=['z'], shapes=shapes1 + pairs2 + trip)
    many('pair-for-each', pforeach, kind='fun', shapes=shapes1 + pairs2 + trip)

    def reduce_(run, f, r, x):
        xs = items(x)
        if not xs:
            return r
        a = xs[0]
        for e in xs[1:]:
            a = T(run, f, e, a)
        return a

    def reduce_right(run, f, r, x):
        xs = items(x)
        if not xs:
            return r
        a = xs[-1]
        for e in reversed(xs[:-1]):
            a = T(run, f, e, a)
        return a
    many('reduce', reduce_, kind='fun', pre=['r'], shapes=shapes1)
    many('reduce-right', reduce_right, kind='fun', pre=['r'], shapes=shapes1)

    # ---- unfolding: stop after at most 3 steps
    def stop3(run, p, s, k):
        return k >= 3 or T(run, p, s) is not False

    class Seeds:
        pass

    def unf(b, gen, tail):
        def pf(run, a):
            s = a[0]
            k = int(s.name[1:])
            if k >= 3:
                run.trace.append(('p', s))
                run.calls.setdefault(('p', (run.canon(s),)), (p, [s], True))
                return True
            return run.unknown(p, a)
        p = b.pred('p')
        p.fn = pf
        f = b.fun('f')

        def gf(run, a):
            run.trace.append(('g', a[0]))
            v = Atom('s%d' % (int(a[0].name[1:]) + 1))
            run.calls.setdefault(('g', (run.canon(a[0]),)), (g, [a[0]], v))
            return v
        g = b.fun('g', fn=gf)
        return [p, f, g, b.atom('s0')] + ([b.fun('t')] if gen else []) + ([b.list(1, 't')] if tail else [])

    def unfold(run, p, f, g, s, *t):
        r = []
        while p.fn(run, [s]) is False:
            r.append(T(run, f, s))
            s = g.fn(run, [s])
        return lst(r, T(run, t[0], s) if t else NIL)

    def unfold_right(run, p, f, g, s, *t):
        r = t[0] if t else NIL
        while p.fn(run, [s]) is False:
            r = Pair(T(run, f, s), r)
            s = g.fn(run, [s])
        return r
    o(L1, 'unfold', lambda b: unf(b, False, False), unfold, 'unfold', trace='any')
    o(L1, 'unfold', lambda b: unf(b, True, False), unfold, 'unfold with a tail generator', trace='any')
    o(L1, 'unfold-right', lambda b: unf(b, False, False), unfold_right, 'unfold-right', trace='any')
    o(L1, 'unfold-right', lambda b: unf(b, False, True), unfold_right, 'unfold-right with a tail', trace='any')
    for n in range(4):
        o(L1, 'list-tabulate', lambda b, n=n: [n, b.fun('f')], lambda run, k, f: lst([T(run, f, i) for i in range(k)]), 'list-tabulate %d' % n, trace='any')

    # ---- equality
    for fn in ('delete', 'delete!'):
        fr = fn[-1] != '!'
        for n in range(4):
            o(L1, fn, lambda b, n=n: [b.atom('a'), b.list(n)], lambda run, x, l: lst([e for e in items(l) if not equal(run, x, e)]), '%s from %d elements' % (fn, n), frame=fr)
            o(L1, fn, lambda b, n=n: [b.atom('a'), b.list(n), b.pred('p')], lambda run, x, l, p: lst([e for e in items(l) if not T(run, p, x, e)]),
              '%s from %d elements by a predicate' % (fn, n), frame=fr, trace='any')

    def dedup(run, l, *p):
        r = []
        for e in items(l):
            if not any(eqv(run, y, e) for y in r):
                r.append(e)
        return lst(r)
    for fn in ('delete-duplicates', 'delete-duplicates!'):
        for n in range(5):
            o(L1, fn, lambda b, n=n: [b.list(n)], dedup, '%s of %d elements' % (fn, n), frame=fn[-1] != '!')
        o(L1, fn, lambda b: [b.list(3), EQ], dedup, '%s by a predicate' % fn, frame=fn[-1] != '!')
    for lib in ('(scheme base)',):
        def member(run, x, l, *p):
            while l is not NIL:
                if (T(run, p[0], x, l.car) is not False) if p else equal(run, x, l.car):
                    return l
                l = l.cdr
            return False

        def assoc(run, x, l, *p):
            for e in items(l):
                if (T(run, p[0], x, e.car) is not False) if p else equal(run, x, e.car):
                    return e
            return False

        def alist(b, n):
            return lst([Pair(b.atom('k%d' % i), b.atom('v%d' % i)) for i in range(n)])
        for n in range(4):
            o(lib, 'member', lambda b, n=n: [b.atom('a'), b.list(n)], member, 'member of %d elements' % n)
            o(lib, 'member', lambda b, n=n: [b.atom('a'), b.list(n), b.pred()], member, 'member of %d elements by a predicate' % n)
            o(lib, 'assoc', lambda b, n=n: [b.atom('a'), alist(b, n)], assoc, 'assoc of %d pairs' % n)
            o(lib, 'assoc', lambda b, n=n: [b.atom('a'), alist(b, n), b.pred()], assoc, 'assoc of %d pairs by a predicate' % n)
            for fn in ('alist-delete', 'alist-delete!'):
                def adel(run, k, l, *p):
                    return lst([e for e in items(l) if not ((T(run, p[0], k, e.car) is not False) if p else equal(run, k, e.car))])
                o(L1, fn, lambda b, n=n: [b.atom('a'), alist(b, n)], adel, '%s of %d pairs' % (fn, n), frame=fn[-1] != '!')
                o(L1, fn, lambda b, n=n: [b.atom('a'), alist(b, n), b.pred()], adel, '%s of %d pairs by a predicate' % (fn, n), frame=fn[-1] != '!', trace='any')
        o(lib, 'member', lambda b: [lst([b.atom('a')]), lst([lst([b.atom('x')]), b.atom('y')])], member, 'member compares with equal?')
        o(lib, 'assoc', lambda b: [lst([b.atom('a')]), lst([Pair(b.atom('x'), NIL), Pair(lst([b.atom('y')]), NIL)])], assoc, 'assoc compares with equal?')

    # ---- sets
    def mem(run, x, l):
        return any(eqv(run, x, y) for y in l)

    def lls(ns):
        return lambda b: [EQ] + ls(b, ns)
    sets = [(), (1,), (2,), (0, 1), (1, 0), (1, 1), (2, 1), (1, 2), (2, 2), (0, 2), (1, 1, 1), (2, 0, 1), (1, 2, 1)]

    def sub(run, a, b):
        return all(mem(run, x, b) for x in a)

    def lset_le(run, p, *ls_):
        xs = [items(l) for l in ls_]
        return all(sub(run, a, b) for a, b in zip(xs, xs[1:]))

    def lset_eq(run, p, *ls_):
        xs = [items(l) for l in ls_]
        return all(sub(run, a, b) and sub(run, b, a) for a, b in zip(xs, xs[1:]))

    def union(run, p, *ls_):
        if not ls_:
            return NIL
        r = items(ls_[0])
        for l in ls_[1:]:
            if not r:
                r = items(l)
                continue
            for x in items(l):
                if not mem(run, x, r):
                    r = [x] + r
        return lst(r)

    def inter(run, p, l, *ls_):
        return lst([x for x in items(l) if all(mem(run, x, items(m)) for m in ls_)])

    def diff(run, p, l, *ls_):
        return lst([x for x in items(l) if not any(mem(run, x, items(m)) for m in ls_)])

    def diffint(run, p, l, *ls_):
        a, c = [], []
        for x in items(l):
            (c if any(mem(run, x, items(m)) for m in ls_) else a).append(x)
        return values(lst(a), lst(c))

    def xor(run, p, *ls_):
        # SRFI 1: the reduction of the binary exclusive or, as the reference implementation orders it
        if not ls_:
            return NIL
        a = items(ls_[0])
        for l in ls_[1:]:
            b = items(l)
            ab = [x for x in a if not mem(run, x, b)] if True else 0
            i = [x for x in a if mem(run, x, b)]
            if not b:
                ab, i = a, []
            # here b is the new list, a the accumulated one: (lset-diff+intersection a b) with a the new list
            a = xor2(run, b, a)
        return lst(a)

    def xor2(run, b, a):
        # b: new list, a: accumulated
        return sorted_xor(run, b, a)

    def sorted_xor(run, b, a):
        amb = [x for x in a if not mem(run, x, b)]
        ab = [x for x in a if mem(run, x, b)]
        if not amb:
            return [x for x in b if not mem(run, x, a)]
        if not ab:
            return list(b) + list(a)
        r = list(b)
        r = [x for x in b if True]
        r2 = list(amb)
        for x in b:
            if not mem(run, x, ab):
                r2 = [x] + r2
        return r2
    for ns in sets:
        nm = 'of %d lists (%s elements)' % (len(ns), ', '.join(map(str, ns)))
        o(L1, 'lset<=', lls(ns), lset_le, 'lset<= ' + nm)
        o(L1, 'lset=', lls(ns), lset_eq, 'lset= ' + nm)
        o(L1, 'lset-union', lls(ns), union, 'lset-union ' + nm)
        o(L1, 'lset-union!', lls(ns), union, 'lset-union! ' + nm, frame=False)
        if ns:
            for x in ('', '!'):
                fr = not x
                o(L1, 'lset-intersection' + x, lls(ns), inter, 'lset-intersection%s %s' % (x, nm), frame=fr)
                o(L1, 'lset-difference' + x, lls(ns), diff, 'lset-difference%s %s' % (x, nm), frame=fr)
                o(L1, 'lset-diff+intersection' + x, lls(ns), diffint, 'lset-diff+intersection%s %s' % (x, nm), frame=fr, multi=True)

    def adjoin(run, p, l, *es):
        r = items(l)
        for e in es:
            if not mem(run, e, r):
                r = [e] + r
        return lst(r)
    for n, k in ((0, 1), (2, 0), (1, 1), (2, 1), (2, 2), (0, 2)):
        o(L1, 'lset-adjoin', lambda b, n=n, k=k: [EQ, b.list(n)] + b.atoms(k, 'e'), adjoin, 'lset-adjoin of %d elements to %d' % (k, n))
    for ns in [(), (1,), (2,), (0, 1), (1, 0), (1, 1), (2, 1), (1, 2), (2, 2), (1, 1, 1)]:
        nm = 'of %d lists (%s elements)' % (len(ns), ', '.join(map(str, ns)))
        for x in ('', '!'):
            o(L1, 'lset-xor' + x, lambda b, ns=ns: [EQ] + ls(b, ns), None, 'lset-xor%s %s' % (x, nm), post=xorpost, frame=not x)

    # list=
    def liste(run, p, *ls_):
        xs = [items(l) for l in ls_]
        for a, c in zip(xs, xs[1:]):
            for u, v in zip(a, c):
                if not T(run, p, u, v):
                    return False
            if len(a) != len(c):
                return False
        return True
    many('list=', liste, shapes=[(), (1,), (0, 0), (1, 1), (2, 2), (1, 2), (2, 1), (0, 1), (1, 1, 1), (1, 1, 2)], trace=None)

    # ---- rearranging
    for k in range(4):
        for fn in ('split-at', 'split-at!'):
            def spl(run, l, k):
                x = items(l)
                return values(lst(x[:k]), lst(x[k:]))
            o(L1, fn, lambda b, k=k: [b.list(3), k], spl, '%s %d of 3' % (fn, k), multi=True, frame=fn[-1] != '!')
    o(L1, 'car+cdr', lambda b: [Pair(b.atom('a'), b.atom('d'))], lambda run, p: values(p.car, p.cdr), 'car+cdr', multi=True, level='proof')
    for ns in [(0,), (2,), (1, 1), (2, 1), (2, 2, 2)]:
        o(L1, 'zip', lambda b, ns=ns: ls(b, ns), lambda run, *xs: lst([lst(a) for a in zipn(*xs)]), 'zip of lists of %s elements' % (ns,))
    for k in range(1, 6):
        for n in range(3):
            def bld(b, k=k, n=n):
                return [lst([b.list(k, 'r%d.' % i) for i in range(n)])]

            def unzip(run, l, k=k):
                rows = [items(r) for r in items(l)]
                cols = [lst([r[i] for r in rows]) for i in range(k)]
                return values(*cols) if k > 1 else values(cols[0])
            o(L1, 'unzip%d' % k, bld, unzip, 'unzip%d of %d' % (k, n), multi=True)

    # ---- R7RS
    BASE = '(scheme base)'
    for nf in range(4):
        for nl in range(3):
            o(BASE, 'apply', lambda b, nf=nf, nl=nl: [b.fun('f')] + b.atoms(nf, 'a') + [b.list(nl)], lambda run, f, *a: T(run, f, *(list(a[:-1]) + items(a[-1]))),
              'apply with %d arguments and a list of %d' % (nf, nl), level='bounded')
    for n in range(4):
        o(BASE, 'list-set!', lambda b, n=n: [b.list(4), n, b.atom('a')], lambda run, l, k, x: ANYV, 'list-set! %d' % n, frame=False,
          after=lambda run, args, got, n=n: [('the list', [run.canon(x) for x in items(args[0])] == [run.canon(args[2] if i == n else Atom_('x%d' % i, args, i)) for i in range(4)], '')] if False else setlist(run, args, n),
          expr=lambda vs: '(begin (list-set! %s) %s)' % (' '.join(vs), vs[0]))

    CH = [Char('a'), Char('Q'), Char('z'), Char('λ')]

    def charfun(b):
        def fn(run, a):
            run.trace.append(('f',) + tuple(a))
            v = Char(chr(ord('A') + (sum(ord(c.c) for c in a) * 7) % 26))
            run.calls.setdefault(('f', tuple(run.canon(x) for x in a)), (u, list(a), v))
            return v
        u = b.fun('f', fn=fn)
        return u

    def strs(ns):
        return [Str([chr(ord('a') + 5 * i + j) for j in range(n)]) for i, n in enumerate(ns)]

    def vecs(b, ns):
        return [Vec(b.atoms(n, 'xyz'[i])) for i, n in enumerate(ns)]
    for ns in [(0,), (1,), (3,), (1, 1), (2, 1), (1, 2), (2, 2, 2), (0, 2)]:
        nm = 'of lengths %s' % (ns,)

        def smap(run, f, *ss):
            return Str([f.fn(run, [Char(c) for c in a]).c for a in zip(*[s.cs for s in ss])])

        def seach(run, f, *ss):
            for a in zip(*[s.cs for s in ss]):
                f.fn(run, [Char(c) for c in a])
            return ANYV

        def vmap(run, f, *vs):
            return Vec([T(run, f, *a) for a in zip(*[v.xs for v in vs])])

        def veach(run, f, *vs):
            for a in zip(*[v.xs for v in vs]):
                T(run, f, *a)
            return ANYV
        o(BASE, 'string-map', lambda b, ns=ns: [charfun(b)] + strs(ns), smap, 'string-map ' + nm, trace='any')
        o(BASE, 'string-for-each', lambda b, ns=ns: [charfun(b)] + strs(ns), seach, 'string-for-each ' + nm)
        o(BASE, 'vector-map', lambda b, ns=ns: [b.fun('f')] + vecs(b, ns), vmap, 'vector-map ' + nm, trace='any')
        o(BASE, 'vector-for-each', lambda b, ns=ns: [b.fun('f')] + vecs(b, ns), veach, 'vector-for-each ' + nm)
    return out


def setlist(run, args, n):
    want = [('x%d' % i) if i != n else 'a' for i in range(4)]
    return [('the list', [run.find(x).name for x in items(args[0])] == want, '')]


def Atom_(*a):
    raise NotImplementedError


def xorpost(run, args, got):
    """SRFI 1: the elements that occur in an odd number of the lists"""
    ls = [items(l) for l in args[1:]]
    g = items(got)

    def mem(x, l):
        return any(eqv(run, x, y) for y in l)
    allx = [x for l in ls for x in l]
    ok = all(mem(x, allx) for x in g)
    for x in allx:
        # an element counts once per list (the lists are sets)
        n = sum(1 for l in ls if mem(x, l))
        ok = ok and (mem(x, g) == (n % 2 == 1))
    return [('the elements', bool(ok))]
