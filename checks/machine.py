"""C01: the abstract machine.  One obligation per instruction and state shape: from any state
(s, e, (instruction operand... . rest), d), the body of the fetch loop reaches the loop head
again in exactly the state the machine's transition prescribes, and changes no other memory."""
import itertools
import z3
from vf import lists, oblig, sym, world
from vf.ext import Table
from vf.lists import goal, fresh, conj, lst
from vf.oblig import Ob, walk
from vf.sym import Ptr, Throw, Unsupported, is_c
from vf.world import Val

EXEC = 'meevax::dynamic_environment::execute(meevax::object, meevax::object, meevax::object, meevax::object)'
APPLY = 'meevax::dynamic_environment::apply(meevax::object const&, meevax::object const&)'
NAMES = ('call cons current drop dummy install join letrec load_absolute load_closure load_constant load_continuation '
         'load_relative load_variadic return select stop store_absolute store_relative store_variadic tail_call '
         'tail_letrec tail_select').split()
NULLW = 0x7fff << 48
Nil = ('w', NULLW)


def C(*xs):
    """(cons x ... tail) as an expected term"""
    r = xs[-1]
    for x in reversed(xs[:-1]):
        r = ('cons', x, r)
    return r


class M:
    """a machine state under construction"""

    def __init__(self, W):
        self.W = W
        self.vals = []
        self.a = [self.o('a%d' % i) for i in range(3)]

    def o(self, nm):
        v = self.W.opaque(nm)
        self.vals.append(v)
        return v

    def keep(self, v):
        self.vals.append(v)
        return v

    def cons(self, a, d):
        return self.keep(self.W.cons(a, d))

    def cs(self, *xs):
        r = xs[-1]
        for x in reversed(xs[:-1]):
            r = self.cons(x, r)
        return r

    def obj(self, k, *a):
        v = self.W.obj(k, *a)
        if len(a) == 2:
            v.kind, v.car, v.cdr = k, a[0], a[1]
        return self.keep(v)

    def instr(self, n):
        return Val('instruction', self.W.ctor('vf_instr', NAMES.index(n)))

    def rest(self, nm='rest'):
        """code that stops the exploration when the machine fetches from it"""
        r = self.W.ex.alloc(self.W.st, 64, nm, 'halt')
        return Val('opaque', (0x7ffe << 48) | (r << sym.SHIFT), name=nm)

    def tail(self, nm):
        """a stack, environment or dump of which nothing is known: a pair of unknown contents or the empty list"""
        return self.o(nm)


def _frameval(W, st, v):
    return W.ex.load(st, W.run1('vf_car', [W.slot(v.w, st)], st), 8), W.ex.load(st, W.run1('vf_cdr', [W.slot(v.w, st)], st), 8)


class Cell:
    pass


def cell(W, st, v, k):
    for cl in W.__dict__.get('cells', ()):
        if lists.weq(W, cl.v, v) is True and goal(W, st, cl.k, ('num', k)) is True:
            return cl
    return None


def variable(W, st, e, i, j):
    """the cell of the variable at depth i, position j"""
    fr = cell(W, st, e.w, z3.SignExt(32, i.bv))
    return fr and cell(W, st, fr.car, z3.SignExt(32, j.bv))


class Step(Ob):
    """mk(m) -> dict(s, e, c, d) and want = dict(s, e, c, d, mut=[(Val, car, cdr)], a=[...], throw=..., ret=...)"""

    def __init__(self, name, build, **kw):
        self.build = build
        kw.setdefault('note', '')
        super().__init__('execute', [], None, name='machine ' + name, **kw)

    def _verify(self, r):
        W = self.world()
        m = M(W)
        self.tables(W)
        st0, want = self.build(m)
        null = W.null()
        envr = W.ex.alloc(W.st, 64, 'machine', 'stack')
        for i in range(3):
            W.ex.store(W.st, Ptr(envr, 8 * i), 8, m.a[i].w)
        self.handler(W, want.get('handler'))
        regs = {k: W.slot((st0.get(k) or null).w, name=k) for k in 'secd'}
        ret = W.slot(name='result')
        f = W.fn(EXEC)
        f.parse()
        snap = {v.w: _frameval(W, W.st, v) for v in m.vals if hasattr(v, 'car')}
        mut = {v.w: (v, a, d) for v, a, d in want.get('mut', ())}
        W.inputs_w = set(snap)
        outs = W.ex.call_fn(W.st.clone(), f, [ret, Ptr(envr, 0), regs['s'], regs['e'], regs['c'], regs['d']])
        r['outs'] = len(outs)
        r['inlined'] = sorted(str(x) for x in W.ex.inlined)
        r['trusted'] = sorted(str(x) for x in W.ex.used_contracts)
        live = 0
        for o in outs:
            st = o.state
            if o.kind in ('bound', 'unsupported'):
                raise Unsupported('%s %s' % (o.kind, o.note))
            if o.kind == 'throw':
                t = want.get('throw')
                if t is None:
                    self.vc(r, 'no exception', st, False, [], note=str(o.note))
                else:
                    live += 1
                    for lab, g in t(W, st, o):
                        self.vc(r, lab, st, g, [])
                continue
            if o.kind == 'halt':
                if want.get('throw') or 'ret' in want:
                    self.vc(r, 'the machine must not go on', st, False, [])
                    continue
                live += 1
                cond = want.get('when')
                for alt in (cond(W, st) if cond else [(None, want)]):
                    c0, w0 = alt
                    for k in 'secd':
                        word = W.ex.load(st, regs[k], 8)
                        exp = w0.get(k, st0.get(k) or null)
                        if callable(exp):
                            exp = exp(W, st)
                        g = goal(W, st, word, exp)
                        if c0 is not None and g is not True:
                            g = z3.Implies(c0, z3.BoolVal(g) if isinstance(g, bool) else g)
                        self.vc(r, 'register %s' % k, st, g, [])
            elif o.kind == 'ret':
                if 'ret' not in want:
                    self.vc(r, 'the machine must go on', st, False, [])
                    continue
                live += 1
                self.vc(r, 'result', st, goal(W, st, W.ex.load(st, ret, 8), want['ret']), [])
            else:
                self.vc(r, '%s: %s' % (o.kind, str(o.note)[:200]), st, False, [])
                continue
            for i in range(3):
                g = goal(W, st, W.ex.load(st, Ptr(envr, 8 * i), 8), want.get('a', m.a)[i])
                self.vc(r, 'auxiliary register %d' % i, st, g, [])
            for v in m.vals:
                if not hasattr(v, 'car'):
                    continue
                a, d = _frameval(W, st, v)
                if v.w in mut:
                    _, ea, ed = mut[v.w]
                    if ea == 'any':
                        continue
                    self.vc(r, 'assigned location', st, conj([goal(W, st, a, ea), goal(W, st, d, ed)]), [])
                else:
                    a0, d0 = snap[v.w]
                    self.vc(r, 'frame: %s' % v.kind, st, conj([lists.weq(W, a, a0), lists.weq(W, d, d0)]), [])
            for lab, g in (want['more'](W, st) if 'more' in want else ()):
                self.vc(r, lab, st, g, [])
        if not live:
            raise Unsupported('vacuous: no outcome reachable')

    def handler(self, W, v):
        for m in W.prog.modules:
            for n in m.globals:
                if 'exception_handler' in n and not n.startswith('_ZGV'):
                    p = W.ex.glob_ptr(W.st, m, n)
                    W.ex.store(W.st, p, 8, v.w if v is not None else NULLW)
                    if v is not None:
                        self.h = v
                    return
        raise Unsupported('exception handler not found')

    def tables(self, W):
        t = Table()

        @t.c('vf_callee', cname='procedure (any C++ function)')
        def callee(cx, ret, xs):
            w = fresh(W, cx.st, 'call', [cx.ex.load(cx.st, xs, 8)])
            cx.ex.store(cx.st, ret, 8, w)

        @t.d(APPLY, cname='apply (verified here)')
        def apply(cx, ret, this, f, xs):
            w = fresh(W, cx.st, 'apply', [cx.ex.load(cx.st, f, 8), cx.ex.load(cx.st, xs, 8)])
            cx.ex.store(cx.st, ret, 8, w)

        # tail(x, k): a location holding a pair (B03 proves list-tail); the k-th element is its car
        @t.r(r'meevax::tail<meevax::object( const)?&>\(', cname='tail (B03)')
        def tail(cx, x, k):
            v = cx.ex.load(cx.st, x, 8)
            tab = W.__dict__.setdefault('cells', [])
            for cl in tab:
                if lists.weq(W, cl.v, v) is True and goal(W, cx.st, cl.k, ('num', k)) is True:
                    return Ptr(cl.r, 0)
            cl = Cell()
            cl.v, cl.k = v, k
            cl.car, cl.cdr = fresh(W, cx.st, 'car', [v, k]), fresh(W, cx.st, 'cdr', [v, k])
            q = [W.slot(x, cx.st) for x in (0, cl.car, cl.cdr)]
            W.run1('vf_cons', q, cx.st)
            cl.w = cx.ex.load(cx.st, q[0], 8)
            cl.r = cx.ex.alloc(cx.st, 8, 'cell', 'stack')
            cx.ex.store(cx.st, Ptr(cl.r, 0), 8, cl.w)
            tab.append(cl)
            return Ptr(cl.r, 0)
        W.ex.contracts = [t] + list(W.ex.contracts)


def steps():
    obs = []

    def step(name):
        def deco(f):
            obs.append(Step(name, f))
            return f
        return deco

    def base(m):
        return m.tail('s'), m.tail('e'), m.rest(), m.tail('d')

    @step('load-absolute')
    def _(m):
        s, e, c, d = base(m)
        x = m.o('x')
        ab = m.obj('absolute', m.o('name'), x)
        return dict(s=s, e=e, c=m.cs(m.instr('load_absolute'), ab, c), d=d), dict(s=C(x, s), c=c)

    for n, op in (('relative', 'head'), ('variadic', 'tail')):
        @step('load-%s' % n)
        def _(m, n=n, op=op):
            s, e, c, d = base(m)
            i, j = m.W.small('i'), m.W.small('j')
            m.W.st.assume(i.i >= 0)
            m.W.st.assume(j.i >= 0)
            o = m.obj(n, i, j)
            def x(W, st):
                cl = variable(W, st, e, i, j)
                return ('bad',) if cl is None else ('w', cl.car if op == 'head' else cl.w)
            return dict(s=s, e=e, c=m.cs(m.instr('load_' + n), o, c), d=d), dict(s=lambda W, st: C(x(W, st), s), c=c, more=lambda W, st: cells(W, st, None, None, None))

        @step('store-%s' % n)
        def _(m, n=n, op=op):
            s, e, c, d = base(m)
            i, j = m.W.small('i'), m.W.small('j')
            m.W.st.assume(i.i >= 0)
            m.W.st.assume(j.i >= 0)
            o = m.obj(n, i, j)
            x = m.o('x')
            s1 = m.cs(x, s)
            return (dict(s=s1, e=e, c=m.cs(m.instr('store_' + n), o, c), d=d),
                    dict(s=s1, c=c, more=lambda W, st: cells(W, st, variable(W, st, e, i, j) or 0, op, x)))

    @step('store-absolute')
    def _(m):
        s, e, c, d = base(m)
        x, y, nm = m.o('x'), m.o('y'), m.o('name')
        ab = m.obj('absolute', nm, y)
        s1 = m.cs(x, s)
        return dict(s=s1, e=e, c=m.cs(m.instr('store_absolute'), ab, c), d=d), dict(s=s1, c=c, mut=[(ab, nm, x)])

    @step('load-constant')
    def _(m):
        s, e, c, d = base(m)
        x = m.o('x')
        return dict(s=s, e=e, c=m.cs(m.instr('load_constant'), x, c), d=d), dict(s=C(x, s), c=c)

    @step('load-closure')
    def _(m):
        s, e, c, d = base(m)
        k = m.o('code')
        return dict(s=s, e=e, c=m.cs(m.instr('load_closure'), k, c), d=d), dict(s=C(('obj', 'closure', k, e), s), c=c)

    @step('load-continuation')
    def _(m):
        s, e, c, d = base(m)
        k = m.o('code')
        kont = ('obj', 'continuation', s, C(e, k, d))
        return dict(s=s, e=e, c=m.cs(m.instr('load_continuation'), k, c), d=d), dict(s=C(C(kont, Nil), s), c=c)

    for i in range(3):
        @step('current %d' % i)
        def _(m, i=i):
            s, e, c, d = base(m)
            return dict(s=s, e=e, c=m.cs(m.instr('current'), m.W.small_c(i), c), d=d), dict(s=C(m.a[i], s), c=c)

        @step('install %d' % i)
        def _(m, i=i):
            s, e, c, d = base(m)
            x = m.o('x')
            s1 = m.cs(x, s)
            a = list(m.a)
            a[i] = x
            return dict(s=s1, e=e, c=m.cs(m.instr('install'), m.W.small_c(i), c), d=d), dict(s=s1, c=c, a=a)

    tests = {'#t': lambda W: W.bool_c(True), '#f': lambda W: W.bool_c(False), '()': lambda W: W.null(), '0': lambda W: W.small_c(0),
             'any fixnum': lambda W: W.small('n'), 'any flonum': lambda W: W.double('x'), 'any object': lambda W: W.opaque('t'),
             '""': lambda W: W.string([]), '#()': lambda W: W.vector([]), 'a boolean': lambda W: W.boolean('b')}
    for nm, mk in tests.items():
        for tl in (False, True):
            @step('%sselect on %s' % ('tail-' if tl else '', nm))
            def _(m, mk=mk, tl=tl, nm=nm):
                s, e, c, d = base(m)
                t = mk(m.W)
                c1, c2 = m.rest('consequent'), m.rest('alternate')
                code = m.cs(m.instr('tail_select'), c1, c2, m.W.null()) if tl else m.cs(m.instr('select'), c1, c2, c)
                out = dict(s=s) if tl else dict(s=s, d=C(c, d))
                start = dict(s=m.cs(t, s), e=e, c=code, d=d)
                if nm == 'a boolean':
                    def when(W, st):
                        return [(t.b == 1, dict(out, c=c1)), (t.b == 0, dict(out, c=c2))]
                    return start, dict(out, when=when)
                return start, dict(out, c=c2 if nm == '#f' else c1)

    @step('join')
    def _(m):
        s, e, c, d = base(m)
        return dict(s=s, e=e, c=m.cs(m.instr('join'), m.W.null()), d=m.cs(c, d)), dict(d=d, c=c)

    for tl in (False, True):
        T = 'tail-' if tl else ''
        I = 'tail_call' if tl else 'call'

        @step(T + 'call of a closure')
        def _(m, tl=tl, I=I):
            s, e, c, d = base(m)
            k, e1, xs = m.rest('body'), m.tail("e'"), m.o('arguments')
            f = m.obj('closure', k, e1)
            c0 = m.cs(m.instr(I), m.W.null() if tl else c)
            if tl:
                s = m.W.null()
            return dict(s=m.cs(f, xs, s), e=e, c=c0, d=d), dict(s=m.W.null(), e=C(xs, e1), c=k, d=d if tl else C(s, e, c, d))

        @step(T + 'call of a primitive')
        def _(m, tl=tl, I=I):
            s, e, c, d = base(m)
            xs = m.o('arguments')
            f = Val('procedure', m.W.ctor('vf_fprocedure', 0))
            v = ('uf', 'call', xs)
            if tl:
                s1, e1 = m.tail("s'"), m.tail("e'")
                return (dict(s=m.cs(f, xs, m.W.null()), e=e, c=m.cs(m.instr(I), m.W.null()), d=m.cs(s1, e1, c, d)),
                        dict(s=C(v, s1), e=e1, c=c, d=d))
            return dict(s=m.cs(f, xs, s), e=e, c=m.cs(m.instr(I), c), d=d), dict(s=C(v, s), c=c)

        @step(T + 'call of a continuation')
        def _(m, tl=tl, I=I):
            s, e, c, d = base(m)
            s1, e1, c1, d1 = m.tail("s'"), m.tail("e'"), m.rest("c'"), m.tail("d'")
            x = m.o('x')
            f = m.obj('continuation', s1, m.cs(e1, c1, d1))
            xs = m.cs(x, m.W.null())
            return (dict(s=m.cs(f, xs, m.W.null()), e=e, c=m.cs(m.instr(I), m.W.null() if tl else c), d=d),
                    dict(s=C(x, s1), e=e1, c=c1, d=d1))

        for nm, mk in (('a number', lambda W: W.small('n')), ('a string', lambda W: W.string([])), ('()', lambda W: W.null()),
                       ('a pair', lambda W: W.cons(W.opaque('p'), W.opaque('q'))), ('#t', lambda W: W.bool_c(True)),
                       ('a vector', lambda W: W.vector([])), ('a symbol', lambda W: W.obj('symbol')), ('a flonum', lambda W: W.double('x')),
                       ('a character', lambda W: W.char('c')), ('a large integer', lambda W: W.large('z'))):
            for h in (False, True):
                @step('%scall of %s%s' % (T, nm, ', with a handler' if h else ''))
                def _(m, mk=mk, I=I, tl=tl, h=h):
                    s, e, c, d = base(m)
                    f = mk(m.W)
                    start = dict(s=m.cs(f, m.o('xs'), m.W.null() if tl else s), e=e, c=m.cs(m.instr(I), m.W.null() if tl else c), d=d)
                    if h:
                        hd = m.o('handler')
                        return start, dict(handler=hd, ret=('uf', 'apply', hd, C(('obj', 'error', ('any',), f), Nil)))
                    return start, dict(throw=lambda W, st, o: [('an error is raised', is_error(o))])

        @step(T + 'letrec')
        def _(m, tl=tl):
            s, e, c, d = base(m)
            k, e0, xs = m.rest('body'), m.tail('e0'), m.o('values')
            fr = m.cs(m.W.null(), e0)
            f = m.obj('closure', k, fr)
            s1 = s
            code = m.cs(m.instr('tail_letrec' if tl else 'letrec'), m.W.null() if tl else c)
            return (dict(s=m.cs(f, xs, s1), e=fr, c=code, d=d),
                    dict(s=m.W.null(), e=('pair', fr, xs, e0), c=k, d=d if tl else C(s1, e0, c, d), mut=[(fr, xs, e0)]))

    # exceptions: what a primitive throws reaches the handler, or the caller of the machine
    for tl in (False, True):
        I = 'tail_call' if tl else 'call'
        for k, what in ((1, 'throws an object'), (2, 'raises an error'), (3, 'throws a C++ exception')):
            for h in (False, True):
                @step('%scall of a primitive that %s%s' % ('tail-' if tl else '', what, ', with a handler' if h else ''))
                def _(m, I=I, k=k, h=h, tl=tl):
                    s, e, c, d = base(m)
                    a, b = m.W.cons(m.W.small_c(1), m.W.null()), m.o('irritants')
                    xs = m.cs(a, b)
                    f = Val('procedure', m.W.ctor('vf_fprocedure', k))
                    start = dict(s=m.cs(f, xs, m.W.null() if tl else s), e=e, c=m.cs(m.instr(I), m.W.null() if tl else c), d=d)
                    if k == 1 or not h:
                        w = dict(throw=lambda W, st, o: [('an error is raised', is_error(o))])
                        if h:
                            w['handler'] = m.o('handler')
                        return start, w
                    hd = m.o('handler')
                    err = ('obj', 'error', a, b) if k == 2 else ('obj', 'error', ('any',), ('any',))
                    return start, dict(handler=hd, ret=('uf', 'apply', hd, C(err, Nil)))

    @step('call of a primitive that throws an error object')
    def _(m):
        s, e, c, d = base(m)
        er = m.obj('error', m.o('message'), m.o('irritants'))
        f = Val('procedure', m.W.ctor('vf_fprocedure', 1))
        return (dict(s=m.cs(f, m.cs(er, m.W.null()), s), e=e, c=m.cs(m.instr('call'), c), d=d),
                dict(handler=m.o('handler'), throw=lambda W, st, o: [('that error leaves the machine', is_error(o))]))

    @step('dummy')
    def _(m):
        s, e, c, d = base(m)
        return dict(s=s, e=e, c=m.cs(m.instr('dummy'), c), d=d), dict(e=C(Nil, e), c=c)

    @step('return')
    def _(m):
        s, e, c, d = base(m)
        x, s1, e1 = m.o('x'), m.tail("s'"), m.tail("e'")
        return (dict(s=m.cs(x, m.W.null()), e=e, c=m.cs(m.instr('return'), m.W.null()), d=m.cs(s1, e1, c, d)),
                dict(s=C(x, s1), e=e1, c=c, d=d))

    @step('cons')
    def _(m):
        s, e, c, d = base(m)
        x, y = m.o('x'), m.o('y')
        s1 = m.cs(y, s)
        s0 = m.cs(x, s1)
        return dict(s=s0, e=e, c=m.cs(m.instr('cons'), c), d=d), dict(s=C(C(x, y), s), c=c, mut=[(s0, 'any', 'any')])

    @step('drop')
    def _(m):
        s, e, c, d = base(m)
        x = m.o('x')
        return dict(s=m.cs(x, s), e=e, c=m.cs(m.instr('drop'), c), d=d), dict(s=s, c=c)

    @step('stop')
    def _(m):
        x = m.o('x')
        s = m.cs(x, m.W.null())
        return dict(s=s, c=m.cs(m.instr('stop'), m.W.null())), dict(ret=x)
    return obs


def cells(W, st, target, op, x):
    """exactly the target location holds x"""
    got = [] if target != 0 else [('the variable is assigned', False)]
    for cl in W.__dict__.get('cells', ()):
        now = W.ex.load(st, Ptr(cl.r, 0), 8)
        a, d = _frameval(W, st, Val('pair', cl.w))
        hit = cl is target
        got.append(('the variable holds the value' if hit else 'no other variable changes', conj([
            goal(W, st, now, x) if hit and op == 'tail' else lists.weq(W, now, cl.w),
            goal(W, st, a, x) if hit and op == 'head' else lists.weq(W, a, cl.car), lists.weq(W, d, cl.cdr)])))
    return got


def is_error(o):
    return 'error' in str(o.note) or 'error' in str(getattr(o.value, 'ti', o.value))


def obs(tier='quick'):
    return steps()
