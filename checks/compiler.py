"""C02: code generation.  Each generator is run on an arbitrary form of its shape; recursive code
generation is a contract (the code of a subform is code that pushes the subform's value).  The code
it returns is then executed on the specified machine (the transitions C01 proves of the real one)
with those subform codes as single steps, and the resulting trace and state must be the meaning of
the form: so what the code does is compared, not how it is laid out."""
import itertools
import z3
from vf import lists, oblig, sym, world
from vf.ext import Table
from vf.lists import goal, fresh, conj, den
from vf.oblig import Ob
from vf.sym import Ptr, Throw, Unsupported, is_c
from vf.world import Val
from .machine import NAMES

NULLW = 0x7fff << 48
GEN = 'meevax::generator::%s(meevax::syntactic_environment&, meevax::object const&, meevax::object const&, meevax::object const&, bool)'
GENERATE = 'meevax::syntactic_environment::generate(meevax::object const&, meevax::object const&, meevax::object const&, bool)'
IDENTIFY = 'meevax::syntactic_environment::identify(meevax::object const&, meevax::object const&)'
IDENTIFYC = IDENTIFY + ' const'


class Bad(Exception):
    pass


class Run:
    """the specified machine on a code word"""

    def __init__(self, W, st, k, tail, s0):
        self.W, self.st, self.k, self.tail, self.s0 = W, st, k, tail, s0
        self.instr = {}
        for i, n in enumerate(NAMES):
            self.instr[W.ctor0('vf_instr', i)] = n
        self.out = []

    def pair(self, w):
        if not lists.ispair(self.W, self.st, w):
            raise Bad('code is not a list: %s' % (den(self.W, w) and den(self.W, w)[0]))
        return lists.carcdr(self.W, self.st, w)

    def isret(self, w):
        if den(self.W, w) or not lists.ispair(self.W, self.st, w):
            return False
        a, d = self.pair(w)
        return self.instr.get(a) == 'return' and d == NULLW

    def value(self, w):
        return ('CONST', w)

    def go(self, c, s, e, d, trace, cond=(), fuel=60):
        while True:
            fuel -= 1
            if fuel < 0:
                raise Bad('code does not end')
            if c == self.k:
                self.out.append((cond, trace, ('k', s, e, d)))
                return
            t = den(self.W, c)
            if t and t[0] in ('G', 'OPS', 'BODY', 'SEQ', 'SX', 'CALL'):
                op, form, bv, k, tl = t
                if op == 'BODY':        # a body is always in tail position
                    tl = True
                if tl and not self.isret(k):
                    raise Bad('tail code with a continuation')
                v = (op, form, bv, e)
                trace = trace + (('eval', op, form, bv, e, bool(tl)),)
                if tl:      # the value goes to the caller
                    self.out.append((cond, trace, ('ret', v, s, d)))
                    return
                s = (v,) + s
                c = k
                continue
            a, r = self.pair(c)
            n = self.instr.get(a)
            if n is None:
                raise Bad('not an instruction')
            if n in ('load_absolute', 'load_relative', 'load_variadic'):
                x, c = self.pair(r)
                s = (('REF', n[5:], x, e),) + s
            elif n in ('store_absolute', 'store_relative', 'store_variadic'):
                x, c = self.pair(r)
                trace = trace + (('store', n[6:], x, e, s[0]),)
            elif n == 'load_constant':
                x, c = self.pair(r)
                s = (('CONST', x),) + s
            elif n == 'load_closure':
                x, c = self.pair(r)
                s = (('CLO', x, e),) + s
            elif n == 'load_continuation':
                x, c = self.pair(r)
                s = (('cons', ('KONT', s, e, x, d), ('CONST', NULLW)),) + s
            elif n == 'current':
                x, c = self.pair(r)
                s = (('CUR', x),) + s
            elif n == 'install':
                x, c = self.pair(r)
                trace = trace + (('install', x, s[0]),)
            elif n in ('select', 'tail_select'):
                c1, r = self.pair(r)
                c2, r = self.pair(r)
                if n == 'select':
                    d = (('join', r),) + d
                elif r != NULLW:
                    raise Bad('code after a tail select')
                self.go(c1, s[1:], e, d, trace, cond + ((s[0], True),), fuel)
                self.go(c2, s[1:], e, d, trace, cond + ((s[0], False),), fuel)
                return
            elif n == 'join':
                if r != NULLW or not d or d[0][0] != 'join':
                    raise Bad('join')
                c, d = d[0][1], d[1:]
            elif n == 'cons':
                s = (('cons', s[0], s[1]),) + s[2:]
                c = r
            elif n == 'drop':
                s, c = s[1:], r
            elif n == 'dummy':
                e, c = ('env', 'dummy', e), r
            elif n in ('call', 'tail_call'):
                f, xs = s[0], s[1]
                v = ('APPLY', f, xs)
                trace = trace + (('call', f, xs, n == 'tail_call', d),)
                if n == 'call':
                    s, c = (v,) + s[2:], r
                    continue
                if len(s) > 2 or r != NULLW:
                    raise Bad('tail call on a stack')
                self.out.append((cond, trace, ('ret', v, (), d)))
                return
            elif n in ('letrec', 'tail_letrec'):
                f, xs = s[0], s[1]
                if f[0] != 'CLO' or e[:2] != ('env', 'dummy') or f[2] != e:
                    raise Bad('letrec')
                v = ('LETREC', f[1], xs, e)
                trace = trace + (('letrec', f[1], n == 'tail_letrec'),)
                if n == 'letrec':
                    s, e, c = (v,) + s[2:], e[2], r
                    continue
                if len(s) > 2 or r != NULLW:
                    raise Bad('tail letrec on a stack')
                self.out.append((cond, trace, ('ret', v, (), d)))
                return
            elif n == 'return':
                if r != NULLW or len(s) != 1:
                    raise Bad('return')
                self.out.append((cond, trace, ('ret', s[0], (), d)))
                return
            elif n == 'stop':
                self.out.append((cond, trace, ('stop', s, e, d)))
                return
            else:
                raise Bad(n)


class GOb(Ob):
    """build(W) -> (form Val, bv Val); spec(W, st, args, finals) -> [(label, bool)]"""

    def __init__(self, fn, name, build, spec, tail, mut=(), env=None, **kw):
        self.build, self.spec_, self.tl, self.mut, self.env = build, spec, tail, mut, env
        super().__init__(fn, [], None, name='%s%s: %s' % ('tail ' if tail else '', fn, name), **kw)

    def target(self):
        return GEN % self.fn

    def _verify(self, r):
        W = self.world()
        W.smaller, W.inputs_w = set(), set()
        table = {}
        W.ctor0 = lambda f, k: table.setdefault(k, W.ctor(f, k))
        for i in range(len(NAMES)):
            W.ctor0('vf_instr', i)
        form, bv = self.build(W)
        tables(W, self.tl)
        g = W.obj('senv', W.null(), W.null())
        this = W.run1('vf_senv_this', [W.slot(g.w)])
        k = W.list([Val('instruction', W.ctor0('vf_instr', NAMES.index('return')))]) if self.tl else W.opaque('k')
        ret = W.slot(name='result')
        fs = [W.slot(x.w) for x in (form, bv, k)]
        f = W.fn(self.target())
        f.parse()
        snap = oblig.snapshot(W, [form, bv])
        outs = W.ex.call_fn(W.st.clone(), f, [ret, this] + fs + [int(self.tl)])
        r['outs'] = len(outs)
        r['inlined'] = sorted(str(x) for x in W.ex.inlined)
        r['trusted'] = sorted(str(x) for x in W.ex.used_contracts)
        live = 0
        for o in outs:
            st = o.state
            if o.kind in ('bound', 'unsupported'):
                raise Unsupported('%s %s' % (o.kind, o.note))
            if o.kind == 'throw':
                if self.err:
                    live += 1
                    self.vc(r, 'error where specified', st, True, [])
                else:
                    self.vc(r, 'no exception', st, False, [], note=str(o.note))
                continue
            if o.kind != 'ret':
                self.vc(r, '%s: %s' % (o.kind, str(o.note)[:200]), st, False, [])
                continue
            live += 1
            if self.err:
                self.vc(r, 'no error missed', st, False, [])
                continue
            code = W.ex.load(st, ret, 8)
            m = Run(W, st, None if self.tl else k.w, self.tl, ())
            try:
                m.go(code, (), ('e',), (), ())
            except Bad as b:
                self.vc(r, 'the code is well formed: %s' % b, st, False, [])
                continue
            except IndexError:
                self.vc(r, 'the code is well formed: stack underflow', st, False, [])
                continue
            for lab, gl in self.spec_(W, st, (form, bv), m):
                self.vc(r, lab, st, gl, [], note=str(m.out)[:300])
            for lab, gl in oblig.frame(W, st, [form, bv], snap):
                self.vc(r, lab, st, gl, [])
        if not live:
            raise Unsupported('vacuous: no outcome reachable')


def tables(W, tl):
    t = Table()

    def code(op, n_this):
        def f(cx, *a):
            ret, this, form, bv, k, tail = a
            ws = [cx.ex.load(cx.st, p, 8) for p in (form, bv, k)]
            if op != 'G' and op != 'CALL' and op != 'SX' and ws[0] not in W.smaller:
                return NotImplemented
            if not is_c(tail):
                raise Unsupported('symbolic tail flag')
            cx.ex.store(cx.st, ret, 8, fresh(W, cx.st, op, ws + [int(tail) & 1]))
        return f
    t.d(GENERATE, cname='generate (the functions verified here)')(code('G', 1))
    for op, n in (('OPS', 'operand'), ('BODY', 'body'), ('SEQ', 'sequence')):
        t.d(GEN % n, cname='%s of the rest (verified here)' % n)(code(op, 1))

    @t.d(IDENTIFY, cname='identify (verified here)')
    def identify(cx, ret, this, v, bv):
        w = cx.ex.load(cx.st, v, 8)
        b = cx.ex.load(cx.st, bv, 8)
        got = W.__dict__.get('ids', {}).get((w, b))
        if got is None:
            raise Unsupported('identify of an unexpected variable')
        cx.ex.store(cx.st, ret, 8, got)

    @t.d(IDENTIFYC, cname='identify (verified here)')
    def identifyc(cx, ret, this, v, bv):
        return identify(cx, ret, this, v, bv)
    W.ex.contracts = [t] + list(W.ex.contracts)


# ---------------------------------------------------------------- the meaning of each form
def evals(trace):
    return [t for t in trace if t[0] == 'eval']


def one(m):
    return m.out[0] if len(m.out) == 1 else None


E = ('e',)


def V(form, bv, e=E, op='G'):
    return (op, form.w if hasattr(form, 'w') else form, bv.w if hasattr(bv, 'w') else bv, e)


def result(m, tail, want):
    """single outcome whose value is want, the stack, environment and dump otherwise unchanged"""
    o = one(m)
    if o is None:
        return False
    _, _, fin = o
    if tail:
        return fin[0] == 'ret' and want(fin[1]) and fin[2] == () and fin[3] == ()
    return fin[0] == 'k' and len(fin[1]) == 1 and want(fin[1][0]) and fin[2] == E and fin[3] == ()


def same_bv(W, st, w, t):
    return goal(W, st, w, t) is True


def reify(W, st, v, vlist):
    """a value that is a list of values: the terms of its elements"""


def quoted(W, st, v, x):
    return v[0] == 'CONST' and goal(W, st, v[1], x) is True


def obs(tier='quick'):
    out = []
    for tl in (False, True):
        def add(fn, name, build, spec, **kw):
            out.append(GOb(fn, name, build, spec, tl, **kw))

        # quote
        for nm, mk in (('a symbol', lambda W: W.obj('symbol')), ('a list', lambda W: W.list([W.obj('symbol'), W.small('n')])), ('a number', lambda W: W.small('n')),
                       ('()', lambda W: W.null()), ('a string', lambda W: W.string([])), ('a vector', lambda W: W.vector([W.opaque('a')])), ('#f', lambda W: W.bool_c(False))):
            if tl:
                continue    # a quotation ignores the tail flag: code and continuation are concatenated
            def b(W, mk=mk):
                return W.list([mk(W)]), W.opaque('bv')
            add('quote', nm, b, lambda W, st, a, m: [('the value is the datum', result(m, False, lambda v: quoted(W, st, v, a[0].car)))])
            add('quote_syntax', nm, b, lambda W, st, a, m: [('the value is the datum', result(m, False, lambda v: quoted(W, st, v, a[0].car)))])
        if not tl:
            def b(W):
                x = W.opaque('form')
                sc = W.obj('syntactic_closure', W.obj('senv', W.null(), W.null()), W.null(), x)
                W.inner = x
                return W.list([sc]), W.opaque('bv')
            add('quote', 'a syntactic closure', b, lambda W, st, a, m: [('the value is the enclosed datum', result(m, False, lambda v: quoted(W, st, v, W.inner)))])
            add('quote_syntax', 'a syntactic closure', b, lambda W, st, a, m: [('the value is the closure', result(m, False, lambda v: quoted(W, st, v, a[0].car)))])

        # operands
        def b(W):
            x = W.tail('rest')
            W.smaller.add(x.w)
            return W.cons(W.opaque('x'), x), W.opaque('bv')

        def spec(W, st, a, m):
            want = ('cons', V(a[0].car, a[1]), V(a[0].cdr, a[1], op='OPS'))
            return [('a fresh list of the values', result(m, False, lambda v: v == want)),
                    ('every operand is evaluated once', one(m) is not None and sorted(t[1:3] for t in one(m)[1]) == sorted([('G', a[0].car.w), ('OPS', a[0].cdr.w)])),
                    ('operands are not in tail position', all(not t[5] for t in evals(one(m)[1])) if one(m) else False)]
        if not tl:
            add('operand', 'a non-empty list', b, spec)
            for nm, mk in (('()', lambda W: W.null()), ('an identifier', lambda W: W.obj('symbol'))):
                add('operand', nm, lambda W, mk=mk: (mk(W), W.opaque('bv')),
                    lambda W, st, a, m: [('the value of the end of the list', result(m, False, lambda v: v == V(a[0], a[1])))])

        # calls
        def b(W):
            x = W.tail('operands')
            W.smaller.add(x.w)
            return W.cons(W.opaque('operator'), x), W.opaque('bv')

        def spec(W, st, a, m, tl=tl):
            want = ('APPLY', V(a[0].car, a[1]), V(a[0].cdr, a[1], op='OPS'))
            o = one(m)
            got = [('the operator is applied to the operands', result(m, tl, lambda v: v == want))]
            if o:
                got.append(('evaluated once each, not in tail position', sorted(t[1:3] + (t[5],) for t in evals(o[1])) == sorted([('G', a[0].car.w, False), ('OPS', a[0].cdr.w, False)])))
                calls = [t for t in o[1] if t[0] == 'call']
                got.append(('one call, in tail position exactly when the form is', [t[3] for t in calls] == [tl]))
                got.append(('the call is last', o[1][-1][0] == 'call'))
            return got
        add('call', '(operator . operands)', b, spec)

        # lambda
        def b(W):
            x = W.tail('body')
            W.smaller.add(x.w)
            return W.cons(W.opaque('formals'), x), W.opaque('bv')

        def bodycode(W, st, code, form, formals, bv, E1):
            """the code of a procedure body evaluates it in tail position in the extended scope"""
            m2 = Run(W, st, None, True, ())
            try:
                m2.go(code, (), E1, (), ())
            except (Bad, IndexError):
                return False
            if len(m2.out) != 1:
                return False
            _, tr, fin = m2.out[0]
            return fin[0] == 'ret' and len(tr) == 1 and fin[1][:2] == ('BODY', form.w) and goal(W, st, fin[1][2], ('cons', formals, bv)) is True and fin[1][3] == E1 and fin[2:] == ((), ())

        def spec(W, st, a, m, tl=tl):
            o = one(m)
            if o is None or (o[2][0] != 'k') or len(o[2][1]) != 1 or o[2][1][0][0] != 'CLO':
                return [('a closure', False)]
            v = o[2][1][0]
            return [('a closure over the current environment', v[2] == E and o[2][2:] == (E, ())), ('nothing is evaluated', o[1] == ()),
                    ('its body is evaluated in the scope extended by the formals', bodycode(W, st, v[1], a[0].cdr, a[0].car, a[1], ('inner',)))]
        if not tl:
            add('lambda', '(formals . body)', b, spec)
    out += bodies() + conds() + sets() + misc() + gens()
    return out


def bodies():
    out = []
    for fn, op in (('body', 'BODY'), ('sequence', 'SEQ')):
        for tl in ((True,) if fn == 'body' else (False, True)):
            def b1(W):
                return W.cons(W.opaque('x'), W.null()), W.opaque('bv')

            def s1(W, st, a, m, tl=tl):
                o = one(m)
                return [('the value of the only expression', result(m, tl, lambda v: v == V(a[0].car, a[1]))),
                        ('it is in tail position', o is not None and o[1] == (('eval', 'G', a[0].car.w, a[1].w, E, tl),))]
            out.append(GOb(fn, 'one expression', b1, s1, tl))

            def b2(W):
                x = W.cons(W.opaque('y'), W.tail('rest'))
                W.smaller.add(x.w)
                return W.cons(W.opaque('x'), x), W.opaque('bv')

            def s2(W, st, a, m, tl=tl, op=op):
                o = one(m)
                rest = a[0].cdr
                return [('the value of the last expression', result(m, tl, lambda v: v[:2] == (op, rest.w) and v[2:] == (a[1].w, E))),
                        ('in order, the first for effect only', o is not None and [t[1:] for t in o[1]] == [('G', a[0].car.w, a[1].w, E, False), (op, rest.w, a[1].w, E, tl)])]
            out.append(GOb(fn, 'several expressions', b2, s2, tl))
    return out


def conds():
    out = []
    for tl in (False, True):
        for n in (2, 3):
            def b(W, n=n):
                return W.list([W.opaque('test'), W.opaque('consequent'), W.opaque('alternate')][:n]), W.opaque('bv')

            def spec(W, st, a, m, n=n, tl=tl):
                f, bv = a
                t, c = f.car, f.cdr.car
                alt = f.cdr.cdr.car if n == 3 else None
                got = {}
                for cond, tr, fin in m.out:
                    if len(cond) != 1 or cond[0][0] != V(t, bv):
                        return [('a choice on the value of the test', False)]
                    got[cond[0][1]] = (tr, fin)
                if set(got) != {True, False}:
                    return [('both branches', False)]

                def fine(b, x):
                    tr, fin = got[b]
                    v = fin[1] if tl else (fin[1][0] if len(fin[1]) == 1 else None)
                    rest = fin[2:] == ((), ()) if tl else fin[2:] == (E, ())
                    if fin[0] != ('ret' if tl else 'k') or not rest or v is None:
                        return False
                    want = [('G', t.w, bv.w, E, False)] + ([('G', x.w, bv.w, E, tl)] if x is not None else [])
                    if [y[1:] for y in tr] != want:
                        return False
                    return v == V(x, bv) if x is not None else v[0] == 'CONST'
                return [('true: the consequent only, in tail position exactly when the form is', fine(True, c)), ('false: the alternate only', fine(False, alt))]
            out.append(GOb('conditional', '%d parts' % n, b, spec, tl))
    return out


def ident(W, v, bv, kind):
    o = W.obj(kind, W.opaque('a') if kind == 'absolute' else W.small_c(1), W.opaque('b') if kind == 'absolute' else W.small_c(2))
    W.__dict__.setdefault('ids', {})[(v.w, bv.w if hasattr(bv, 'w') else bv)] = o.w
    W.id_ = o
    return o


def sets():
    out = []
    for kind in ('absolute', 'relative', 'variadic'):
        def b(W, kind=kind):
            v, bv = W.obj('symbol'), W.opaque('bv')
            ident(W, v, bv, kind)
            return W.list([v, W.opaque('expression')]), bv

        def spec(W, st, a, m, kind=kind):
            x = V(a[0].cdr.car, a[1])
            o = one(m)
            return [('the expression is evaluated once, then stored in the variable', o is not None and o[1] == (('eval', 'G', a[0].cdr.car.w, a[1].w, E, False), ('store', kind, W.id_.w, E, x))),
                    ('one value', result(m, False, lambda v: True))]
        out.append(GOb('set', kind, b, spec, False))

        def b(W, kind=kind):
            v, bv = W.obj('symbol'), W.opaque('bv')
            ident(W, v, bv, kind)
            return v, bv
        out.append(GenOb('variable: ' + kind, b, lambda W, st, a, m, kind=kind: [('the value of the variable', result(m, False, lambda v: v == ('REF', kind, W.id_.w, E))), ('nothing else happens', one(m) is not None and one(m)[1] == ())]))

    # a definition at the outermost level stores the value in the global variable; elsewhere it is an error
    for n in (1, 2):
        def b(W, n=n):
            v, bv = W.obj('symbol'), W.null()
            ident(W, v, bv, 'absolute')
            return W.list([v] + [W.opaque('expression')][:n - 1]), bv

        def spec(W, st, a, m, n=n):
            o = one(m)
            if o is None:
                return [('straight code', False)]
            sto = [t for t in o[1] if t[0] == 'store']
            ev = evals(o[1])
            return [('the variable is assigned', len(sto) == 1 and sto[0][1:4] == ('absolute', W.id_.w, E) and o[1][-1] is sto[0]),
                    ('with the value of the expression', n == 1 or (len(ev) == 1 and sto[0][4] == V(a[0].cdr.car, a[1]) and not ev[0][5])), ('one value', result(m, False, lambda v: True))]
        out.append(GOb('define', '%d parts' % n, b, spec, False))

    def b(W):
        v = W.obj('symbol')
        return W.list([v, W.opaque('expression')]), W.cons(W.opaque('formals'), W.tail('bv'))
    out.append(GOb('define', 'inside a procedure', b, None, False, err=True))
    return out


def misc():
    out = []

    def b(W):
        return W.list([W.opaque('receiver')]), W.opaque('bv')

    def spec(W, st, a, m):
        # non-tail: the continuation resumes at k with the stack, environment and dump of the form
        o = one(m)
        f = V(a[0].car, a[1])
        if o is None or o[2][0] != 'ret' or o[2][1][0] != 'APPLY':
            return [('the receiver is called', False)]
        _, g, xs = o[2][1]
        ok = xs[0] == 'cons' and xs[1][0] == 'KONT' and xs[2] == ('CONST', NULLW)
        kont = xs[1] if ok else None
        return [('the receiver is applied to one continuation', ok and g == f), ('that continuation is the rest of the program', ok and kont[1:] == ((), E, m.k, ())),
                ('the receiver is evaluated once', [t[1:3] for t in evals(o[1])] == [('G', a[0].car.w)])]
    out.append(GOb('call_with_current_continuation', '(receiver)', b, spec, False))

    def b(W):
        return W.list([W.small_c(1)]), W.opaque('bv')
    out.append(GOb('current', '1', b, lambda W, st, a, m: [('the register is read', result(m, False, lambda v: v == ('CUR', a[0].car.w)))], False))

    def b(W):
        return W.list([W.small_c(1), W.opaque('x')]), W.opaque('bv')
    out.append(GOb('install', '1', b, lambda W, st, a, m: [('the register is set to the value', one(m) is not None and one(m)[1] == (('eval', 'G', a[0].cdr.car.w, a[1].w, E, False), ('install', a[0].car.w, V(a[0].cdr.car, a[1])))),
                                                            ('one value', result(m, False, lambda v: True))], False))

    # letrec
    for tl in (False, True):
        for n in range(4):
            def b(W, n=n):
                bs = [W.list([W.opaque('v%d' % i), W.opaque('x%d' % i)]) for i in range(n)]
                W.bs = bs
                x = W.tail('body')
                W.smaller.add(x.w)
                return W.cons(W.list(bs), x), W.opaque('bv')

            def spec(W, st, a, m, n=n, tl=tl):
                o = one(m)
                e1 = ('env', 'dummy', E)
                fin = o and o[2]
                if not o or fin[0] != ('ret' if tl else 'k'):
                    return [('straight code', False)]
                v = fin[1] if tl else fin[1][0]
                if v[0] != 'LETREC' or (fin[2:] != ((), ()) if tl else (fin[2:] != (E, ()) or len(fin[1]) != 1)):
                    return [('a recursive binding', False)]
                formals = lists.lst([x.car for x in W.bs], W.null())
                scope = ('cons', formals, a[1])
                # the values: one per variable, in order, each evaluated in the new scope and environment
                xs, ok, i = v[2], True, 0
                while xs[0] == 'cons':
                    ok = ok and i < n and xs[1][0] == 'G' and xs[1][1] == W.bs[i].cdr.car.w and goal(W, st, xs[1][2], scope) is True and xs[1][3] == e1
                    xs, i = xs[2], i + 1
                end = xs[0] in ('G', 'OPS') and xs[1] == NULLW or xs == ('CONST', NULLW)
                m2 = Run(W, st, None, True, ())
                try:
                    m2.go(v[1], (), ('inner',), (), ())
                    f2 = m2.out[0]
                    body = len(m2.out) == 1 and f2[2][0] == 'ret' and f2[2][1][:2] == ('BODY', a[0].cdr.w) and goal(W, st, f2[2][1][2], scope) is True
                except (Bad, IndexError):
                    body = False
                return [('one value per variable, evaluated in the new scope', ok and i == n and end), ('the body is evaluated in the new scope', body),
                        ('in tail position exactly when the form is', [t[2] for t in o[1] if t[0] == 'letrec'] == [tl]), ('the operands are not', all(not t[5] for t in evals(o[1])))]
            out.append(GOb('letrec', '%d bindings' % n, b, spec, tl, level='bounded' if n == 3 else 'bounded'))
    return out


class GenOb(GOb):
    def __init__(self, name, build, spec, tail=False, **kw):
        super().__init__('generate', name, build, spec, tail, **kw)

    def target(self):
        return GENERATE

    def world(self):
        W = super().world()
        return W

    def _verify(self, r):
        global tables
        old = tables

        def tab(W, tl):
            old(W, tl)
            t = Table()

            @t.d(GENERATE, cname='generate')
            def g(cx, *a):
                return NotImplemented

            @t.d(GEN % 'call', cname='call (verified here)')
            def c(cx, ret, this, form, bv, k, tail):
                ws = [cx.ex.load(cx.st, p, 8) for p in (form, bv, k)]
                cx.ex.store(cx.st, ret, 8, fresh(W, cx.st, 'CALL', ws + [int(tail) & 1]))

            @t.r('vf_sx_generate', cname='the generator of a syntax (verified here)')
            def s(cx, ret, this, form, bv, k, tail):
                ws = [cx.ex.load(cx.st, p, 8) for p in (form, bv, k)]
                cx.ex.store(cx.st, ret, 8, fresh(W, cx.st, 'SX', ws + [int(tail) & 1]))
            W.ex.contracts = [t] + list(W.ex.contracts)
        tables = tab
        try:
            super()._verify(r)
        finally:
            tables = old


def gens():
    out = []
    for nm, mk in (('a number', lambda W: W.small('n')), ('a flonum', lambda W: W.double('x')), ('a string', lambda W: W.string([])), ('a character', lambda W: W.char('c')),
                   ('#f', lambda W: W.bool_c(False)), ('#t', lambda W: W.bool_c(True)), ('a vector', lambda W: W.vector([])), ('()', lambda W: W.null()), ('a large integer', lambda W: W.large('z'))):
        out.append(GenOb(nm, lambda W, mk=mk: (mk(W), W.opaque('bv')), lambda W, st, a, m: [('a self-evaluating datum', result(m, False, lambda v: quoted(W, st, v, a[0])))]))
    for tl in (False, True):
        # a syntactic keyword selects its generator; any other operator makes a call
        def b(W):
            v, bv = W.obj('symbol'), W.opaque('bv')
            sx = Val('syntax', W.ctor('vf_syntax'))
            o = W.obj('absolute', v, sx)
            W.__dict__.setdefault('ids', {})[(v.w, bv.w)] = o.w
            return W.cons(v, W.tail('rest')), bv
        out.append(GenOb('a syntactic keyword', b, lambda W, st, a, m, tl=tl: [('the keyword rules the form', one(m) is not None and one(m)[1] == (('eval', 'SX', a[0].cdr.w, a[1].w, E, tl),))], tl))
        for kind in ('relative', 'variadic', 'absolute', 'unbound'):
            def b(W, kind=kind):
                v, bv = W.obj('symbol'), W.opaque('bv')
                if kind == 'unbound':
                    W.__dict__.setdefault('ids', {})[(v.w, bv.w)] = W.bool_c(False).w
                else:
                    o = W.obj(kind, W.small_c(1) if kind != 'absolute' else v, W.small_c(1))
                    W.__dict__.setdefault('ids', {})[(v.w, bv.w)] = o.w
                return W.cons(v, W.tail('rest')), bv
            out.append(GenOb('operator: a variable (%s)' % kind, b, lambda W, st, a, m, tl=tl: [('a procedure call', one(m) is not None and one(m)[1] == (('eval', 'CALL', a[0].w, a[1].w, E, tl),))], tl))
        for nm, mk in (('a call', lambda W: W.cons(W.opaque('f'), W.opaque('x'))), ('a number', lambda W: W.small('n'))):
            out.append(GenOb('operator: ' + nm, lambda W, mk=mk: (W.cons(mk(W), W.tail('rest')), W.opaque('bv')),
                             lambda W, st, a, m, tl=tl: [('a procedure call', one(m) is not None and one(m)[1] == (('eval', 'CALL', a[0].w, a[1].w, E, tl),))], tl))
    return out
