"""Type predicates (B01) and equivalence predicates (B02)."""
import itertools
import z3
from vf import data
from vf.data import ANY, Pair, Nil, Char, Str, Vec, Sym, Flo
from vf.data import Raw
from vf.oblig import Ob, weqs, mk
from vf.sym import Unsupported
from vf import smt, sym, ext
from vf.sym import Ptr
from vf.world import Val, HV


def k(label, f, src, grid=()):
    def g(W, nm):
        return f(W, nm)
    g.label, g.src = label, src
    g.grid = [data.Raw(src)] if src else []
    return g


# label -> (constructor, an expression that makes one, or None)
KINDS = {
    'null': ('n', "'()"),
    'boolean': ('b', '#t'),
    'small': ('s', '42'),
    'large': ('l', '100000000000000000000'),
    'ratio': ('r', '1/3'),
    'float': ('f', '1.5f0'),
    'double': ('d', '1.5'),
    'complex': (lambda W, nm: W.complex(W.opaque(nm + '.re'), W.opaque(nm + '.im')), '(c:make-rectangular 1 2)'),
    'char': ('c', '#\\a'),
    'pair': (lambda W, nm: W.cons(W.opaque(nm + '.a'), W.opaque(nm + '.d')), "(b:cons 1 2)"),
    'string': (lambda W, nm: W.string([W.char(nm)]), '"a"'),
    'empty-string': (lambda W, nm: W.string([]), '""'),
    'symbol': (lambda W, nm: W.obj('symbol'), "'a"),
    'vector': (lambda W, nm: W.vector([W.opaque(nm)]), '(b:vector 1)'),
    'empty-vector': (lambda W, nm: W.vector([]), '(b:vector)'),
    'box': (lambda W, nm: W.obj('box', W.opaque(nm)), '(x:box 1)'),
    'closure': (lambda W, nm: W.obj('closure', W.opaque(nm + '.a'), W.opaque(nm + '.d')), '(lambda (x) x)'),
    'continuation': (lambda W, nm: W.obj('continuation', W.opaque(nm + '.a'), W.opaque(nm + '.d')), None),
    'procedure': (lambda W, nm: W.obj('procedure'), 'b:car'),
    'transformer': (lambda W, nm: W.obj('transformer', W.opaque(nm + '.a'), W.opaque(nm + '.d')), None),
    'syntactic-closure': (lambda W, nm: W.obj('syntactic_closure', W.opaque(nm + '.a'), W.null(), W.opaque(nm + '.d')), None),
    'error': (lambda W, nm: W.obj('error', W.opaque(nm + '.a'), W.opaque(nm + '.d')), '(m:error-object "m" 1)'),
    'file-error': (lambda W, nm: W.obj('file_error', W.opaque(nm + '.a'), W.opaque(nm + '.d')), None),
    'read-error': (lambda W, nm: W.obj('read_error', W.opaque(nm + '.a'), W.opaque(nm + '.d')), None),
    'eof': (lambda W, nm: W.obj('eof'), '(b:eof-object)'),
    'unspecified': (lambda W, nm: W.obj('unspecified'), '(b:if #f #f)'),
    'input-string-port': (lambda W, nm: W.obj('instring'), '(b:open-input-string "")'),
    'output-string-port': (lambda W, nm: W.obj('outstring'), '(b:open-output-string)'),
}
for t in HV:
    KINDS[t + 'vector'] = ((lambda t: lambda W, nm: W.obj(t + 'vector', 2))(t), '(v:make-%svector 2)' % t)

# predicate -> the kinds that satisfy it; the rest do not
NUM = {'small', 'large', 'ratio', 'float', 'double', 'complex'}
PRED = {
    'boolean?': {'boolean'}, 'char?': {'char'}, 'null?': {'null'}, 'pair?': {'pair'}, 'string?': {'string', 'empty-string'},
    'symbol?': {'symbol'}, 'vector?': {'vector', 'empty-vector'}, 'procedure?': {'closure', 'continuation', 'procedure'},
    'closure?': {'closure'}, 'continuation?': {'continuation'}, 'box?': {'box'}, 'eof-object?': {'eof'},
    'number?': NUM, 'complex?': NUM, 'exact-integer?': {'small', 'large'}, 'integer32?': {'small'}, 'binary32?': {'float'}, 'binary64?': {'double'},
    'error-object?': {'error', 'file-error', 'read-error'}, 'file-error?': {'file-error'}, 'read-error?': {'read-error'},
    'identifier?': {'symbol', 'syntactic-closure'}, 'syntactic-closure?': {'syntactic-closure'}, 'transformer?': {'transformer'},
    'input-port?': {'input-string-port'}, 'output-port?': {'output-string-port'}, 'textual-port?': {'input-string-port', 'output-string-port'},
    'binary-port?': set(), 'port?': {'input-string-port', 'output-string-port'},
}
for t in HV:
    PRED[t + 'vector?'] = {t + 'vector'}

IMPORTS = ("(scheme base) (scheme write) (scheme complex) (scheme char) (scheme cxr) (scheme inexact) (prefix (scheme base) b:) (prefix (scheme complex) c:) (prefix (meevax box) x:) (prefix (meevax vector homogeneous) v:) "
           "(prefix (meevax error) e:) (prefix (only (meevax core) call-with-current-continuation!) p:) (prefix (meevax read) x:) "
           + ' '.join('(prefix (meevax %s) m:)' % l for l in ('boolean', 'box', 'character', 'comparator', 'list', 'number', 'pair', 'string', 'symbol', 'vector', 'vector homogeneous', 'binary32', 'binary64', 'integer32', 'error', 'procedure', 'port', 'syntactic-closure')))


class MultiOb(Ob):
    """one function over many argument shapes, each in a world of its own"""

    def __init__(self, fn, shapes, **kw):
        super().__init__(fn, [], None, **kw)
        self.shapes = shapes

    def _verify(self, r):
        for label, kinds, goal in self.shapes:
            W = self.world()
            args = [mk(W, c, 'x%d' % i) for i, c in enumerate(kinds)]
            live = False
            for o in W.prim(self.fn, args):
                r['outs'] += 1
                if o.kind in ('bound', 'unsupported'):
                    raise Unsupported('%s: %s %s' % (label, o.kind, o.note))
                if o.kind != 'ret':
                    self.vc(r, '%s: %s %s' % (label, o.kind, o.note), o.state, False, [])
                    continue
                live = True
                self.vc(r, label, o.state, goal(W, o.state, args, o.word), [])
            r['inlined'] = sorted(set(r.get('inlined', [])) | {str(x) for x in W.ex.inlined})
            r['trusted'] = sorted(set(r.get('trusted', [])) | {str(x) for x in W.ex.used_contracts})
            if not live and not r['failed']:
                raise Unsupported('vacuous: %s' % label)


def isbool(b):
    def goal(W, st, args, w):
        return weqs(W, w, (0x7ff9 << 48) | (1 if b else 0))
    return goal


def b01(tier="quick"):
    out = []
    for p, yes in PRED.items():
        shapes = [('%s on %s' % (p, kd), [c], isbool(kd in yes)) for kd, (c, s) in KINDS.items()]
        grid = [(Raw(s, kd),) for kd, (c, s) in KINDS.items() if s]
        out.append(MultiOb(p, shapes, oracle=(lambda yes: lambda x: x.kind in yes)(yes), grid=grid, imports=IMPORTS, expr=lambda xs, p=p: '(m:%s %s)' % (p, xs[0].src), name=p))
    return out


# ---------------------------------------------------------------- B02
def same_arg(W, nm):
    """the very object given as the first argument"""
    return W.built[0]


same_arg.label, same_arg.grid = '=', []

B = z3.BoolVal


def eqw(W, a, b, n=64):
    g = weqs(W, a, b, n)
    return B(g) if isinstance(g, bool) else g


def eqv_spec(W, x, y):
    """the specification of eqv? on two argument values, as a z3 formula"""
    if x is y:
        return B(True)
    if x.kind != y.kind:
        return B(False)
    k = x.kind
    if k == 'char':
        return eqw(W, x.cp, y.cp, 32)
    if k in ('bool', 'small', 'float', 'double', 'null', 'opaque'):
        return eqw(W, x.w, y.w)
    if k == 'large':
        return x.i == y.i
    if k == 'ratio':
        return x.n * y.d == y.n * x.d
    if k == 'complex':
        return z3.And(eqv_spec(W, x.re, y.re), eqv_spec(W, x.im, y.im))
    if k == 'string':
        return B(False) if len(x.chars) != len(y.chars) else z3.And([B(True)] + [eqw(W, a.cp, b.cp, 32) for a, b in zip(x.chars, y.chars)])
    if k == 'vector':
        return B(False) if len(x.items) != len(y.items) else z3.And([B(True)] + [equal_spec(W, a, b) for a, b in zip(x.items, y.items)])
    if k.endswith('vector'):
        return B(False) if len(x.data) != len(y.data) else z3.And([B(True)] + [eqw(W, a, b, x.width) for a, b in zip(x.data, y.data)])
    return B(False)          # distinct objects of a type compared by identity


def equal_spec(W, x, y):
    if x is y:
        return B(True)
    if x.kind == 'pair' and y.kind == 'pair':
        return z3.And(equal_spec(W, x.car, y.car), equal_spec(W, x.cdr, y.cdr))
    return eqv_spec(W, x, y)


def eq_spec(W, x, y):
    return eqw(W, x.w, y.w)          # identity; whether equal characters and numbers are identical is the representation's business


def isb(spec):
    def goal(W, st, args, w):
        s = spec(W, *args)
        return W.ex.bv(w, 64) == z3.If(s, z3.BitVecVal((0x7ff9 << 48) | 1, 64), z3.BitVecVal(0x7ff9 << 48, 64))
    return goal


def hv(t, n):
    def f(W, nm):
        v = W.obj(t + 'vector', n)
        s = W.slot(v.w)
        p = W.run1('vf_%svector_data' % t, [s])
        v.width = int(t[1:])
        v.data = []
        for i in range(n):
            x = smt.fresh_bv('%s.%d' % (nm, i), v.width)
            W.ex.store(W.st, Ptr(p.r, p.off + i * v.width // 8), v.width // 8, x)
            v.data.append(x)
        return v
    f.label = '%svector%d' % (t, n)
    return f


def eqkinds():
    """label -> constructor; like KINDS, with contents that can coincide"""
    d = {kd: c for kd, (c, s) in KINDS.items() if kd not in ('vector', 'complex', 'syntactic-closure', 'f32vector', 'f64vector') and not kd.endswith('port')}
    d['vector'] = lambda W, nm: W.vector([W.small(nm)])
    d['vector2'] = lambda W, nm: W.vector([W.large(nm + '.0'), W.cons(W.small(nm + '.1'), W.null())])
    d['string2'] = lambda W, nm: W.string([W.char(nm + '.0'), W.char(nm + '.1')])
    d['complex'] = lambda W, nm: W.complex(W.small(nm + '.re'), W.small(nm + '.im'))
    d['complex-double'] = lambda W, nm: W.complex(W.double(nm + '.re'), W.double(nm + '.im'))
    d['complex-large-ratio'] = lambda W, nm: W.complex(W.large(nm + '.re'), W.ratio(nm + '.im'))
    for t in HV:
        if t[0] != 'f':
            d[t + 'vector'] = hv(t, 2)
    d['u8vector-short'] = hv('u8', 1)
    d['u8vector-empty'] = hv('u8', 0)
    return d


def tree_kinds():
    S = lambda W, nm: W.small(nm)
    L = lambda W, nm: W.large(nm)
    d = {}
    d['(s . s)'] = lambda W, nm: W.cons(S(W, nm + 'a'), S(W, nm + 'd'))
    d['(l)'] = lambda W, nm: W.cons(L(W, nm + 'a'), W.null())
    d['(s s)'] = lambda W, nm: W.list([S(W, nm + 'a'), S(W, nm + 'b')])
    d['((s) s)'] = lambda W, nm: W.list([W.list([S(W, nm + 'a')]), S(W, nm + 'b')])
    d['(s "c")'] = lambda W, nm: W.list([S(W, nm + 'a'), W.string([W.char(nm + 'c')])])
    d['(#(s))'] = lambda W, nm: W.list([W.vector([S(W, nm + 'a')])])
    d['(s s s)'] = lambda W, nm: W.list([S(W, nm + x) for x in 'abc'])
    return d


# ---- concrete data for replay: (expression, key under eqv?, key under equal?, decided by eq?)
def _vals():
    v = []

    def lit(src, key):
        v.append(Raw(src, ('lit', key)))
    for b in ('#t', '#f'):
        lit(b, b)
    lit("'()", 'null')
    for n in (0, 1, -1, 2**31 - 1, -2**31, 2**31, -2**31 - 1, 2**64, 10**20, -10**20):
        lit(str(n), ('int', n))
        lit('(+ 1 %d)' % (n - 1), ('int', n))
    for n, d in ((1, 2), (-1, 2), (1, 3), (10**20, 3)):
        lit('%d/%d' % (n, d), ('ratio', n, d))
    for x in ('0.0', '1.0', '-1.0', '1.5', '1e20', '2147483648.0', '+inf.0', '0.5'):
        lit(x, ('double', x))
    lit('1.0f0', ('float', 1))
    for a, b in (('1', '2'), ('1.0', '2.0'), ('1', '2.0'), ('1/2', '2'), ('100000000000000000000', '2')):
        lit('(make-rectangular %s %s)' % (a, b), ('complex', a, b))
    for c in (0x61, 0x41, 0x3bb):
        lit('(integer->char %d)' % c, ('char', c))
    for y in 'ab':
        lit("'" + y, ('sym', y))
    for t in ('', 'a', 'b', 'ab', 'ba'):
        lit('(string-copy "%s")' % t, ('str', t))
    for t in ('', '1', '2', '1 2', '(list 1)', '(list 2)'):
        lit('(vector %s)' % t, ('vec', t))
    for t in ('', '1', '2', '1 2', '1 2 3'):
        lit('(bytevector %s)' % t, ('u8', t))
        lit('(m:s16vector %s)' % t, ('s16', t))
    for t in ("(list 1)", "(list 2)", "(list 1 2)", "(cons 1 2)", "(list (list 1) 2)", "(list (list 1) 3)", "(list \"a\" 1)", "(list \"b\" 1)", "(list (vector 1))", "(list 1.0)", "(list 1 2 3)", "(list 1 3 2)", "(list 1 2 4)"):
        v.append(Raw(t, ('pair', t)))
    for t in ('(let ((x (list 1))) (set-cdr! x x) x)', '(let ((x (list 2))) (set-cdr! x x) x)', '(let ((x (list 1 2))) (set-cdr! (cdr x) x) x)', '(let ((x (list 1 2 1 3))) (set-cdr! (cdddr x) x) x)'):
        v.append(Raw(t, ('ring', t)))
    v.append(Raw('(let ((x (list 1 1))) (set-cdr! (cdr x) x) x)', ('ring', '(let ((x (list 1))) (set-cdr! x x) x)')))
    v.append(Raw('(let ((x (list 1 2 1 2))) (set-cdr! (cdddr x) x) x)', ('ring', '(let ((x (list 1 2))) (set-cdr! (cdr x) x) x)')))
    v.append(Raw('(lambda (x) x)', ('own', 'lambda')))
    v.append(Raw('car', ('lit', 'car')))
    return v


VALS = _vals()
IMM = ('#t', '#f', 'null', 'car')


def oracle_eq(p):
    def f(x, y):
        (cx, kx), (cy, ky) = x.kind, y.kind
        same_ = x.kind == y.kind and cx != 'own'
        if p == 'equal?':
            return same_
        if p == 'eqv?':
            return same_ and cx == 'lit'
        if not same_:
            return False
        if cx != 'lit':
            return False
        if isinstance(kx, str) or kx[0] in ('sym', 'double', 'float') or (kx[0] == 'int' and -2**31 <= kx[1] < 2**31):
            return True
        return ANY if kx[0] in ('char', 'int', 'ratio', 'complex') else False
    return f


def grid_eq():
    return [(x, y) for x in VALS for y in VALS]


def expr_eq(p):
    return lambda xs: '(m:%s %s %s)' % (p, xs[0].src, xs[1].src)


def replay_eq(p):
    return dict(oracle=oracle_eq(p), grid=grid_eq, expr=expr_eq(p), imports=IMPORTS)


def b02(tier="quick"):
    out = b02_()
    for o in out:
        o.replay_key = ('B02', o.fn if o.fn in ('eq?', 'eqv?') else 'equal?')
    return out


def b02_():
    out = []
    ks = eqkinds()
    for p, spec in (('eq?', eq_spec), ('eqv?', eqv_spec), ('equal?', equal_spec)):
        if p == 'equal?':
            kk = dict({k: v for k, v in ks.items() if k != 'pair'}, **tree_kinds())
        else:
            kk = ks
        for k1, c1 in kk.items():
            shapes = [('%s %s %s' % (p, k1, k2), [c1, c2], isb(spec)) for k2, c2 in kk.items()]
            shapes.append(('%s %s itself' % (p, k1), [c1, same_arg], isb(lambda W, x, y: B(True))))
            out.append(MultiOb(p, shapes, name='%s %s' % (p, k1), **replay_eq(p)))
    return out + b02_equal()


# the recursive equal?(x, y, forest): one unfolding over its own contract and that of union_find
FOREST = 'std::unordered_map<meevax::object, meevax::object, std::hash<meevax::object>, std::equal_to<meevax::object>, std::allocator<std::pair<meevax::object const, meevax::object>>>&)'
EQUAL3 = 'meevax::equal(meevax::object const&, meevax::object const&, ' + FOREST
UNION = 'meevax::union_find(meevax::object const&, meevax::object const&, ' + FOREST
E3 = z3.Function('equal', z3.BitVecSort(64), z3.BitVecSort(64), z3.BoolSort())


def bit(b):
    return z3.If(b, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))


class Unfold(Ob):
    def __init__(self, k1, c1, k2, c2):
        super().__init__('equal', [c1, c2], None, name='equal(x, y, forest) %s %s' % (k1, k2), call=EQUAL3, **replay_eq('equal?'))

    def _verify(self, r):
        W = self.world()
        x, y = [mk(W, c, 'x%d' % i) for i, c in enumerate(self.kinds)]
        t = ext.Table()
        U = z3.Bool('same class')

        @t.d(UNION, cname='union_find (own contract, proved here)')
        def _(cx, a, b, f):
            ws = [cx.ex.load(cx.st, p, 8) for p in (a, b)]
            ok = z3.And(eqw(W, ws[0], x.w), eqw(W, ws[1], y.w))
            cx.ex.require(cx.st, ok, 'union_find on something else than the two pairs')
            cx.st.g['united'] = True
            return bit(U)

        @t.d(EQUAL3, cname='equal(x, y, forest) (own contract, proved here)')
        def _(cx, a, b, f):
            if not cx.st.g.get('united'):
                raise sym.UB('ub', 'recursion of equal? without recording the pair: it need not terminate')
            return bit(E3(*[W.ex.bv(cx.ex.load(cx.st, p, 8), 64) for p in (a, b)]))
        fn = W.fn(EQUAL3)
        forest = W.slot(name='forest')
        W.st.wreg(forest.r).ghost['map'] = ()
        s = [W.slot(x.w), W.slot(y.w), forest]
        W.ex.contracts = [t] + list(W.ex.contracts)
        live = False
        for o in W.ex.call_fn(W.st.clone(), fn, s):
            r['outs'] += 1
            if o.kind in ('bound', 'unsupported'):
                raise Unsupported('%s %s' % (o.kind, o.note))
            if o.kind != 'ret':
                self.vc(r, '%s: %s' % (o.kind, o.note), o.state, False, [x, y])
                continue
            live = True
            if x is y:
                want = B(True)
            elif x.kind == 'pair' and y.kind == 'pair':
                bw = lambda v: W.ex.bv(v.w, 64)
                want = z3.Or(U, z3.And(E3(bw(x.car), bw(y.car)), E3(bw(x.cdr), bw(y.cdr))))
            else:
                want = eqv_spec(W, x, y)
            got = o.value
            got = B(bool(got & 1)) if isinstance(got, int) else (z3.Extract(0, 0, got) == 1)
            self.vc(r, 'the result is that of the recursive definition', o.state, got == want, [x, y])
        r['inlined'] = sorted(str(q) for q in W.ex.inlined)
        r['trusted'] = sorted(str(q) for q in W.ex.used_contracts)
        if not live:
            raise Unsupported('vacuous')


class UnionOb(Ob):
    """union_find(x, y, forest) for one shape of the forest: cx, cy, cz are chains of boxes
    (0: not in the forest); `roots` says which of them share a root"""

    def __init__(self, dx, dy, dz, cls):
        self.d, self.cls = (dx, dy, dz), cls
        super().__init__('union_find', [], None, name='union_find depths %d %d %d classes %s' % (dx, dy, dz, cls), call=UNION, level='bounded', **replay_eq('equal?'))

    def _verify(self, r):
        W = self.world()
        ps = [W.cons(W.opaque('a'), W.opaque('b')) for _ in range(3)]
        forest = W.slot(name='forest')
        m = []
        roots = {}
        for p, d, c in zip(ps, self.d, self.cls):
            if not d:
                continue
            if c not in roots:
                rank = W.small('rank' + c)
                W.st.assume(z3.And(rank.bv >= 1, rank.bv <= 1 << 20))
                roots[c] = W.obj('box', rank)
            b = roots[c]
            for _ in range(d - 1):
                b = W.obj('box', b)
            n = Ptr(W.ex.alloc(W.st, 24, 'map node', 'heap'), 0)
            W.ex.store(W.st, Ptr(n.r, 8), 8, p.w)
            W.ex.store(W.st, Ptr(n.r, 16), 8, b.w)
            m.append((p.w, n))
        W.st.wreg(forest.r).ghost['map'] = tuple(m)
        fn = W.fn(UNION)
        present = [d > 0 for d in self.d]
        joined = present[0] and present[1] and self.cls[0] == self.cls[1]
        live = False
        args = [W.slot(ps[0].w), W.slot(ps[1].w), forest]
        for o in W.ex.call_fn(W.st.clone(), fn, args):
            r['outs'] += 1
            if o.kind in ('bound', 'unsupported'):
                raise Unsupported('%s %s' % (o.kind, o.note))
            if o.kind != 'ret':
                self.vc(r, '%s: %s' % (o.kind, o.note), o.state, False, [])
                continue
            live = True
            st = o.state
            got = o.value
            got = B(bool(got & 1)) if isinstance(got, int) else (z3.Extract(0, 0, got) == 1)
            self.vc(r, 'true exactly when the two were already in one class', st, got == B(joined), [])
            mm = dict()
            for w, n in st.reg(forest.r).ghost['map']:
                mm[w] = self.root(W, st, W.ex.load(st, Ptr(n.r, 16), 8))
            if not all(p.w in mm for p in ps[:2]):
                self.vc(r, 'both are recorded', st, False, [])
                continue
            same_root = lambda a, b: eqw(W, a, b)
            self.vc(r, 'the two are in one class afterwards', st, same_root(mm[ps[0].w], mm[ps[1].w]), [])
            if present[2]:
                # the third keeps its class: it is with them exactly when it was with one of them
                z = any(present[i] and self.cls[i] == self.cls[2] for i in (0, 1))
                self.vc(r, 'other classes are kept', st, same_root(mm[ps[2].w], mm[ps[0].w]) == B(z), [])
        r['inlined'] = sorted(str(q) for q in W.ex.inlined)
        r['trusted'] = sorted(str(q) for q in W.ex.used_contracts)
        if not live:
            raise Unsupported('vacuous')

    def root(self, W, st, w):
        for _ in range(8):
            (st2, v), = W.decode(st, w)
            if v.kind != 'box':
                raise Unsupported('a representative that is not a box: %s' % v.kind)
            s = W.slot(w, st2)
            x = W.ex.load(st2, W.ref('vf_car', st2, s), 8)
            ks = W.decode(st2, x)
            if len(ks) != 1:
                raise Unsupported('box contents undecided')
            if ks[0][1].kind != 'box':
                return w
            w = x
        raise Unsupported('a cycle of boxes')


def ring(*els):
    """a circular list of small integers"""
    def f(W, nm):
        v = W.list([W.small('%s%d' % (nm, i)) for i in range(els[0])], W.opaque(nm + 't'))
        last = v
        while last.cdr.kind == 'pair':
            last = last.cdr
        s = W.slot(last.w)
        W.ex.store(W.st, W.ref('vf_cdr', W.st, s), 8, v.w)
        last.cdr = v
        return v
    return f


def ring_spec(W, x, y):
    def els(v):
        out, p = [], v
        while True:
            out.append(p.car)
            p = p.cdr
            if p is v:
                return out
    a, b = els(x), els(y)
    n = len(a) * len(b)
    return z3.And([eqw(W, a[i % len(a)].w, b[i % len(b)].w) for i in range(n)])


def b02_equal():
    out = []
    ks = eqkinds()
    # every kind against every kind would repeat eqv?: the pair cases and a few others
    P = lambda W, nm: W.cons(W.opaque(nm + '.a'), W.opaque(nm + '.d'))
    some = {k: ks[k] for k in ('null', 'boolean', 'small', 'large', 'double', 'ratio', 'char', 'string', 'empty-string', 'symbol', 'box', 'closure', 'u8vector', 'complex')}
    out.append(Unfold('pair', P, 'pair', P))
    out.append(Unfold('pair', P, 'itself', same_arg))
    for k, c in some.items():
        out.append(Unfold('pair', P, k, c))
        out.append(Unfold(k, c, 'pair', P))
        out.append(Unfold(k, c, k, c))
    for dx, dy, dz in itertools.product((0, 1, 2, 3), (0, 1, 2, 3), (0, 1, 2)):
        for cls in ('aaa', 'aab', 'aba', 'abb', 'abc'):
            out.append(UnionOb(dx, dy, dz, cls))
    for n, m in ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3)):
        out.append(MultiOb('equal?', [('equal? ring%d ring%d' % (n, m), [ring(n), ring(m)], isb(ring_spec))], name='equal? ring%d ring%d' % (n, m), level='bounded', **replay_eq('equal?')))
    return out
