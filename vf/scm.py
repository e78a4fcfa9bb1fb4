"""Scheme: reader, library resolution and a symbolic evaluator for the Scheme part of the code
(library/*.ss, read from the working tree on every run).  Procedures are run on a machine with
explicit continuations (operands right to left, operator last, as C02 specifies of compiled code);
the native procedures of the (meevax ...) libraries are contracts (vf/scmprim.py), the ones A and B
prove of the C++ code; macros are expanded by running their own transformers.  A run takes
decisions (is this unknown value true? are these equal?); Explore enumerates all of them."""
import glob
import os
from fractions import Fraction
import z3


class Sym:
    __slots__ = ('name',)
    T = {}

    def __repr__(self):
        return self.name


def S(n):
    s = Sym.T.get(n)
    if s is None:
        s = Sym.T[n] = Sym()
        s.name = n
    return s


class Nil:
    def __repr__(self):
        return '()'


class Const_:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


NIL = Nil()
UNSPEC = Const_('#,unspecified')
UNDEF = Const_('#,undefined')
EOF = Const_('#,eof')
MISSING = Const_('#,missing-argument')


class Pair:
    __slots__ = ('car', 'cdr')

    def __init__(self, a, d):
        self.car = a
        self.cdr = d

    def __repr__(self):
        return show(self)


class Char:
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    def __eq__(self, o):
        return isinstance(o, Char) and o.c == self.c

    def __hash__(self):
        return hash(self.c)

    def __repr__(self):
        return '#\\' + self.c


class Str:
    __slots__ = ('cs',)

    def __init__(self, cs):
        self.cs = list(cs)

    def __repr__(self):
        return '"%s"' % ''.join(x if isinstance(x, str) else repr(x) for x in self.cs)


class Vec:
    __slots__ = ('xs', 'kind')

    def __init__(self, xs, kind=''):
        self.xs = list(xs)
        self.kind = kind

    def __repr__(self):
        return '#%s(%s)' % (self.kind, ' '.join(show(x) for x in self.xs))


class Atom:
    """an arbitrary object that is not #f, a pair, the empty list, a number, string, vector..."""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


class Err:
    """an error object"""
    __slots__ = ('msg', 'irritants')

    def __init__(self, msg, irritants=NIL):
        self.msg = msg
        self.irritants = irritants

    def __repr__(self):
        return '#,(error %s)' % (self.msg,)


class Alias:
    """an identifier renamed by a macro"""
    __slots__ = ('name', 'scope')

    def __init__(self, n, s):
        self.name = n
        self.scope = s

    def __repr__(self):
        return '%s~' % self.name


class Closure:
    __slots__ = ('lam', 'env')

    def __init__(self, lam, env):
        self.lam = lam
        self.env = env

    def __repr__(self):
        return '#,(closure %s)' % self.lam.name


class Prim:
    __slots__ = ('name', 'fn')

    def __init__(self, n, f):
        self.name = n
        self.fn = f

    def __repr__(self):
        return '#,(procedure %s)' % self.name


class Cont:
    __slots__ = ('k',)

    def __init__(self, k):
        self.k = k

    def __repr__(self):
        return '#,(continuation)'


class Unk:
    """an arbitrary procedure: calls are traced; pred: the result may be #f"""
    __slots__ = ('name', 'pred', 'fn', 'traced')

    def __init__(self, n, pred=False, fn=None, traced=True):
        self.name = n
        self.pred = pred
        self.fn = fn
        self.traced = traced

    def __repr__(self):
        return self.name


class Param_:
    pass


class N:
    """an exact number given by a term: num/den, den a term (or 1)"""
    __slots__ = ('num', 'den')

    def __init__(self, num, den=None):
        self.num = num
        self.den = den

    def __repr__(self):
        return '#,(number %s%s)' % (self.num, '' if self.den is None else '/%s' % self.den)


class Z:
    """an exact integer given by the bits of its two's complement"""
    __slots__ = ('bit', 'neg')

    def __init__(self, bit, neg):
        self.bit = bit
        self.neg = neg

    def __repr__(self):
        return '#,(bits)'


class SchemeError(Exception):
    """raised by a primitive: reaches the kernel exception handler"""

    def __init__(self, obj):
        self.obj = obj


class Thrown(Exception):
    """(throw x): leaves the machine"""

    def __init__(self, obj):
        self.obj = obj


class Unsupported(Exception):
    pass


class Infeasible(Exception):
    pass


def show(x, seen=None):
    if x is True:
        return '#t'
    if x is False:
        return '#f'
    if isinstance(x, Pair):
        o, n, s = [], 0, set()
        while isinstance(x, Pair):
            if id(x) in s or n > 40:
                o.append('...')
                x = NIL
                break
            s.add(id(x))
            n += 1
            o.append(show(x.car))
            x = x.cdr
        if x is not NIL:
            o += ['.', show(x)]
        return '(%s)' % ' '.join(o)
    return str(x) if not isinstance(x, (Pair,)) else repr(x)


def copy(x):
    """the data of x now"""
    if isinstance(x, Pair):
        o = []
        while isinstance(x, Pair) and len(o) < 1000:
            o.append(copy(x.car))
            x = x.cdr
        return lst(o, copy(x))
    if isinstance(x, Vec):
        return Vec([copy(y) for y in x.xs], x.kind)
    if isinstance(x, Str):
        return Str(x.cs)
    return x


def lst(xs, tail=NIL):
    for x in reversed(list(xs)):
        tail = Pair(x, tail)
    return tail


def items(x, what='list'):
    o = []
    while isinstance(x, Pair):
        o.append(x.car)
        x = x.cdr
        if len(o) > 10000:
            raise Unsupported('circular list')
    if x is not NIL:
        raise SchemeError(Err('improper %s' % what))
    return o


# ---------------------------------------------------------------- reader

CHARS = {'alarm': '\a', 'backspace': '\b', 'delete': '\x7f', 'escape': '\x1b', 'newline': '\n', 'null': '\0', 'return': '\r', 'space': ' ', 'tab': '\t', 'nul': '\0', 'linefeed': '\n'}
DELIM = set(' \t\r\n()";\'')


class Reader:
    def __init__(self, s):
        self.s, self.i = s, 0

    def skip(self):
        s = self.s
        while self.i < len(s):
            c = s[self.i]
            if c in ' \t\r\n\f':
                self.i += 1
            elif c == ';':
                j = s.find('\n', self.i)
                self.i = len(s) if j < 0 else j
            elif s.startswith('#|', self.i):
                d = 1
                self.i += 2
                while d:
                    if s.startswith('#|', self.i):
                        d += 1
                        self.i += 2
                    elif s.startswith('|#', self.i):
                        d -= 1
                        self.i += 2
                    elif self.i >= len(s):
                        raise ValueError('comment')
                    else:
                        self.i += 1
            elif s.startswith('#;', self.i):
                self.i += 2
                self.read()
            else:
                return

    def all(self):
        o = []
        while True:
            self.skip()
            if self.i >= len(self.s):
                return o
            o.append(self.read())

    def read(self):
        self.skip()
        s = self.s
        c = s[self.i]
        if c == '(':
            self.i += 1
            return self.seq()
        if c == "'":
            self.i += 1
            return lst([S('quote'), self.read()])
        if c == '`':
            self.i += 1
            return lst([S('quasiquote'), self.read()])
        if c == ',':
            if s[self.i + 1] == '@':
                self.i += 2
                return lst([S('unquote-splicing'), self.read()])
            self.i += 1
            return lst([S('unquote'), self.read()])
        if c == '"':
            return self.string()
        if c == '|':
            j = s.index('|', self.i + 1)
            t = s[self.i + 1:j]
            self.i = j + 1
            return S(t)
        if c == '#' and s[self.i + 1] == '(':
            self.i += 2
            return Vec(items(self.seq()))
        if c == '#' and s[self.i + 1] == '\\':
            j = self.i + 3
            while j < len(s) and s[j] not in DELIM:
                j += 1
            t = s[self.i + 2:j]
            self.i = j
            if len(t) > 1:
                if t in CHARS:
                    return Char(CHARS[t])
                if t[0] == 'x':
                    return Char(chr(int(t[1:], 16)))
                self.i -= len(t) - 1
            return Char(t[0])
        j = self.i
        while j < len(s) and s[j] not in DELIM:
            j += 1
        t = s[self.i:j]
        if not t:
            raise ValueError('unexpected %r' % c)
        self.i = j
        if t.startswith('#u8') and j < len(s) and s[j] == '(':
            self.i += 1
            return Vec(items(self.seq()), 'u8')
        return atom(t)

    def seq(self):
        o = []
        while True:
            self.skip()
            c = self.s[self.i]
            if c == ')':
                self.i += 1
                return lst(o)
            if c == '.' and self.s[self.i + 1] in DELIM:
                self.i += 1
                t = self.read()
                self.skip()
                assert self.s[self.i] == ')'
                self.i += 1
                return lst(o, t)
            o.append(self.read())

    def string(self):
        s = self.s
        i = self.i + 1
        o = []
        while s[i] != '"':
            if s[i] == '\\':
                i += 1
                if s[i] in 'abtnr"\\|':
                    o.append({'a': '\a', 'b': '\b', 't': '\t', 'n': '\n', 'r': '\r'}.get(s[i], s[i]))
                elif s[i] == 'x':
                    j = s.index(';', i)
                    o.append(chr(int(s[i + 1:j], 16)))
                    i = j
                else:
                    while s[i] in ' \t':
                        i += 1
                    i += 1
                    while s[i] in ' \t':
                        i += 1
                    continue
            else:
                o.append(s[i])
            i += 1
        self.i = i + 1
        return Str(o)


def atom(t):
    if t in ('#t', '#true'):
        return True
    if t in ('#f', '#false'):
        return False
    if t[0] in '+-.0123456789#':
        r = 10
        u = t
        if t[:2] in ('#x', '#b', '#o', '#d', '#X', '#B'):
            r = {'x': 16, 'b': 2, 'o': 8, 'd': 10}[t[1].lower()]
            u = t[2:]
        try:
            return int(u, r)
        except ValueError:
            pass
        try:
            if '/' in u and r == 10:
                return Fraction(u)
            if any(c.isdigit() for c in u) and not u.startswith('#') and '_' not in u:
                return float(u)
        except (ValueError, ZeroDivisionError):
            pass
        if u in ('+inf.0', '-inf.0', '+nan.0', '-nan.0'):
            return float(u[:4])
    return S(t)


# ---------------------------------------------------------------- scopes and bindings

class Cell:
    """a global variable"""
    __slots__ = ('v', 'name')

    def __init__(self, name, v=UNDEF):
        self.name = name
        self.v = v


class Local:
    __slots__ = ('frame', 'i')

    def __init__(self, frame, i):
        self.frame = frame
        self.i = i


class Macro:
    __slots__ = ('fn', 'scope', 'name')

    def __init__(self, fn, scope, name='?'):
        self.fn, self.scope, self.name = fn, scope, name


class Core:
    __slots__ = ('name',)

    def __init__(self, n):
        self.name = n


CORE = {n: Core(n) for n in ('quote', 'lambda', 'if', 'set!', 'define', 'letrec', 'begin', 'define-syntax', 'let-syntax', 'letrec-syntax',
                             'call-with-current-continuation!', 'current', 'install', 'quote-syntax', 'include', 'include-case-insensitive', 'cond-expand', 'conditional-expand')}


class Scope:
    """variables of one frame at run time"""

    def __init__(self, parent, frame=True):
        self.parent = parent
        self.b = {}
        self.n = 0
        self.frame = frame

    def add(self, ident):
        b = self.b.get(ident)
        if not isinstance(b, Local):
            b = self.b[ident] = Local(self, self.n)
            self.n += 1
        return b


class Top:
    """the top level environment of a library"""
    parent = None
    frame = False

    def __init__(self, name):
        self.name = name
        self.b = {}

    def add(self, ident):
        b = self.b.get(ident)
        if not isinstance(b, Cell):
            b = self.b[ident] = Cell(ident)
        return b


def lookup(ident, scope):
    while True:
        s = scope
        while s is not None:
            b = s.b.get(ident)
            if b is not None:
                return b
            if s.parent is None:
                break
            s = s.parent
        if isinstance(ident, Alias):
            ident, scope = ident.name, ident.scope
            continue
        return s.add(ident) if isinstance(s, Top) else None


def base(x):
    while isinstance(x, Alias):
        x = x.name
    return x


def isid(x):
    return isinstance(x, (Sym, Alias))


def strip(x):
    if isinstance(x, Alias):
        return base(x)
    if isinstance(x, Pair):
        a, d = strip(x.car), strip(x.cdr)
        return x if a is x.car and d is x.cdr else Pair(a, d)
    if isinstance(x, Vec):
        return Vec([strip(y) for y in x.xs], x.kind)
    return x


# ---------------------------------------------------------------- compiler to closures of the machine
# a node is a tuple (op, ...); environments are lists [parent, v0, v1, ...]

class Lam:
    __slots__ = ('params', 'rest', 'body', 'scope', 'node', 'name', 'np')

    def __init__(self, params, rest, body, scope, name):
        self.params, self.rest, self.body, self.scope, self.name = params, rest, body, scope, name
        self.node = None
        self.np = len(params)

    def code(self, M):
        if self.node is None:
            sc = Scope(self.scope)
            for p in self.params:
                sc.add(p)
            if self.rest is not None:
                sc.add(self.rest)
            self.node = compile_body(M, self.body, sc)
        return self.node


def depth(scope, target):
    d = 0
    while scope is not target:
        if scope.frame:
            d += 1
        scope = scope.parent
    return d


def compile_(M, x, sc):
    while True:
        if isid(x):
            b = lookup(x, sc)
            if isinstance(b, Cell):
                return ('global', b)
            if isinstance(b, Local):
                return ('local', depth(sc, b.frame), b.i + 1, x)
            raise Unsupported('syntactic keyword %r used as a variable' % (x,))
        if not isinstance(x, Pair):
            if x is NIL:
                raise SchemeError(Err('empty application'))
            if isinstance(x, SynClo):
                if not isinstance(x.scope, Top):
                    raise Unsupported('syntactic closure over a local environment')
                return compile_(M, x.form, x.scope)
            return ('const', x)
        b = lookup(x.car, sc) if isid(x.car) else None
        if isinstance(b, Macro):
            x = expand(M, b, x, sc)
            continue
        if isinstance(b, Core):
            return SPECIAL[b.name](M, x, sc)
        f = compile_(M, x.car, sc)
        args = []
        d = x.cdr
        while isinstance(d, Pair):
            args.append(compile_(M, d.car, sc))
            d = d.cdr
        return ('app', f, args, None if d is NIL else compile_(M, d, sc))


def same_binding(u, su, v, sv):
    p, q = lookup(u, su), lookup(v, sv)
    if isinstance(p, Cell) and isinstance(q, Cell) and p.v is UNDEF and q.v is UNDEF:
        return base(u) is base(v)
    return p is q


def synclo(scope, form):
    """make-syntactic-closure"""
    return Alias(form, scope) if isid(form) else form if M_USE and scope is M_USE[-1] else SynClo(form, scope)


class SynClo:
    def __init__(self, form, scope):
        self.form, self.scope = form, scope


M_USE = []


def expand(M, m, x, sc):
    M.expansions += 1
    M_USE.append(sc)
    try:
        return M.nested(m.fn, [x, sc, m.scope])
    finally:
        M_USE.pop()


def compile_body(M, body, sc, top=False):
    """a body: internal definitions have the meaning of letrec*"""
    out, todo = [], items(body, 'body')
    if not todo:
        return ('const', UNSPEC)
    forms = []
    inner = Scope(sc)
    todo.reverse()
    while todo:
        x = todo.pop()
        while isinstance(x, Pair) and isid(x.car):
            b = lookup(x.car, inner)
            if not isinstance(b, Macro):
                break
            x = expand(M, b, x, inner)
        if isinstance(x, Pair) and isid(x.car):
            b = lookup(x.car, inner)
            if isinstance(b, Core):
                if b.name == 'begin':
                    todo.extend(reversed(items(x.cdr)))
                    continue
                if b.name == 'define':
                    t = x.cdr.car
                    while isinstance(t, Pair):
                        t = t.car
                    inner.add(t)
                    forms.append(('d', x))
                    continue
                if b.name == 'define-syntax':
                    name = x.cdr.car
                    inner.b[name] = Macro(M.transformer(x.cdr.cdr.car, inner), inner, str(name))
                    continue
        forms.append(('e', x))
    inner.frame = inner.n > 0
    seq = []
    for k, x in forms:
        if k == 'd':
            name, val = define_parts(x)
            b = inner.b[name]
            seq.append(('set', 0, b.i + 1, named(compile_(M, val, inner), name), name))
        else:
            seq.append(compile_(M, x, inner))
    if not seq:
        seq = [('const', UNSPEC)]
    node = seq[0] if len(seq) == 1 else ('seq', seq)
    return ('frame', inner, node) if inner.frame else node


def named(node, name):
    if node[0] == 'lambda' and node[1].name == '?':
        node[1].name = str(base(name))
    return node


def define_parts(x):
    t, rest = x.cdr.car, x.cdr.cdr
    while isinstance(t, Pair):
        rest = lst([Pair(CORE_LAMBDA, Pair(t.cdr, rest))])
        t = t.car
    return t, (rest.car if isinstance(rest, Pair) else UNSPEC)


CORETOP = Top('core')
for _n, _c in CORE.items():
    CORETOP.b[S(_n)] = _c
CORE_LAMBDA = Alias(S('lambda'), CORETOP)
CORE_BEGIN = Alias(S('begin'), CORETOP)


def sp_lambda(M, x, sc):
    ps, p = [], x.cdr.car
    while isinstance(p, Pair):
        ps.append(p.car)
        p = p.cdr
    return ('lambda', Lam(ps, None if p is NIL else p, x.cdr.cdr, sc, '?'))


def sp_if(M, x, sc):
    xs = items(x.cdr)
    return ('if', compile_(M, xs[0], sc), compile_(M, xs[1], sc), compile_(M, xs[2], sc) if len(xs) > 2 else ('const', UNSPEC))


def sp_set(M, x, sc):
    xs = items(x.cdr)
    b = lookup(xs[0], sc)
    v = compile_(M, xs[1], sc)
    if isinstance(b, Cell):
        return ('gset', b, v)
    return ('set', depth(sc, b.frame), b.i + 1, v, xs[0])


def sp_define(M, x, sc):
    name, val = define_parts(x)
    if not isinstance(sc, Top):
        raise Unsupported('definition in expression context')
    return ('gset', sc.add(name), named(compile_(M, val, sc), name))


def sp_letrec(M, x, sc):
    bs = [items(b) for b in items(x.cdr.car)]
    inner = Scope(sc)
    for b in bs:
        inner.add(b[0])
    seq = [('set', 0, inner.b[b[0]].i + 1, named(compile_(M, b[1], inner), b[0]), b[0]) for b in reversed(bs)]
    return ('frame', inner, ('seq', seq + [compile_body(M, x.cdr.cdr, inner)]))


def sp_begin(M, x, sc):
    xs = [compile_(M, y, sc) for y in items(x.cdr)]
    return xs[0] if len(xs) == 1 else ('seq', xs) if xs else ('const', UNSPEC)


def sp_letsyntax(rec):
    def f(M, x, sc):
        inner = Scope(sc, frame=False)
        for b in items(x.cdr.car):
            n, t = items(b)
            s = inner if rec else sc
            inner.b[n] = Macro(M.transformer(t, s), s, str(n))
        return compile_body(M, x.cdr.cdr, inner)
    return f


def sp_define_syntax(M, x, sc):
    n = x.cdr.car
    sc.b[n] = Macro(M.transformer(x.cdr.cdr.car, sc), sc, str(n))
    return ('const', UNSPEC)


SPECIAL = {
    'quote': lambda M, x, sc: ('const', strip(x.cdr.car)),
    'quote-syntax': lambda M, x, sc: ('const', x.cdr.car),
    'lambda': sp_lambda, 'if': sp_if, 'set!': sp_set, 'define': sp_define, 'letrec': sp_letrec, 'begin': sp_begin,
    'let-syntax': sp_letsyntax(False), 'letrec-syntax': sp_letsyntax(True), 'define-syntax': sp_define_syntax,
    'call-with-current-continuation!': lambda M, x, sc: ('callcc', compile_(M, x.cdr.car, sc)),
    'current': lambda M, x, sc: ('current', x.cdr.car),
    'install': lambda M, x, sc: ('install', x.cdr.car, compile_(M, x.cdr.cdr.car, sc)),
}


# ---------------------------------------------------------------- runs

class Run:
    """one path: a prefix of decisions, then False-first choices"""

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.pos = 0
        self.taken = []      # (value, other value still possible)
        self.known = {}
        self.pc = []         # z3 path condition
        self.solver = None
        self.trace = []
        self.a = [NIL, NIL, NIL]
        self.handler = None
        self.steps = 0
        self.uf = {}
        self.ne = []
        self.calls = {}
        self.world = {}
        self.fresh = 0

    # decisions ------------------------------------------------------
    def choose(self, key=None, both=True):
        if key is not None and key in self.known:
            return self.known[key]
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
        else:
            v = False
        self.pos += 1
        self.taken.append((v, both))
        if key is not None:
            self.known[key] = v
        return v

    def assume(self, t):
        self.pc.append(t)

    def sat(self, t):
        s = z3.Solver()
        s.set('timeout', 20000)
        s.add(*self.pc)
        s.add(t)
        return s.check()

    def cond(self, t):
        """decide a term"""
        if t is True or t is False:
            return t
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.taken.append((v, True))
            self.pc.append(t if v else z3.Not(t))
            return v
        f = self.sat(z3.Not(t)) != z3.unsat
        g = self.sat(t) != z3.unsat
        if f and g:
            self.pos += 1
            self.taken.append((False, True))
            self.pc.append(z3.Not(t))
            return False
        if not f and not g:
            raise Infeasible()
        v = bool(g)
        self.pos += 1
        self.taken.append((v, False))
        self.pc.append(t if v else z3.Not(t))
        return v

    def freshint(self, n='q'):
        self.fresh += 1
        return z3.Int('%s!%d' % (n, self.fresh))

    # equality of arbitrary objects ----------------------------------
    def find(self, a):
        while a in self.uf:
            a = self.uf[a]
        return a

    def same(self, a, b):
        a, b = self.find(a), self.find(b)
        if a is b:
            return True
        for x, y in self.ne:
            x, y = self.find(x), self.find(y)
            if (x is a and y is b) or (x is b and y is a):
                return False
        if self.choose():
            self.uf[a] = b
            return True
        self.ne.append((a, b))
        return False

    def canon(self, x):
        if isinstance(x, Atom):
            return self.find(x)
        if isinstance(x, Pair):
            o = []
            while isinstance(x, Pair):
                o.append(self.canon(x.car))
                x = x.cdr
                if len(o) > 300:
                    return ('circular', tuple(o[:4]))
            return ('l', tuple(o), self.canon(x))
        if isinstance(x, Vec):
            return ('v', x.kind, tuple(self.canon(y) for y in x.xs))
        if isinstance(x, Str):
            return ('s', tuple(self.canon(y) for y in x.cs))
        if isinstance(x, bool):
            return ('b', x)
        if isinstance(x, (int, float, Fraction)):
            return (type(x).__name__, x)
        if isinstance(x, N):
            return ('N', str(x.num), str(x.den))
        if isinstance(x, Z):
            return id(x)
        if isinstance(x, (Char, str)):
            return x
        return id(x)

    def unknown(self, f, args):
        """the result of calling the unknown procedure f, the same for the same arguments"""
        if f.traced:
            self.trace.append((f.name,) + tuple(copy(x) for x in args))
        key = (f.name, tuple(self.canon(x) for x in args))
        if key in self.calls:
            return self.calls[key][2]
        if f.pred and not self.choose():
            v = False
        else:
            v = Atom('%s%s%d' % (f.name, '.', len(self.calls)))
        self.calls[key] = (f, list(args), v)
        return v


def explore(fn, limit=4000):
    """fn(run) for every sequence of decisions; yields (run, result)"""
    stack = [()]
    n = 0
    while stack:
        p = stack.pop()
        run = Run(p)
        try:
            r = fn(run)
        except Infeasible:
            r = None
            dead = True
        else:
            dead = False
        n += 1
        if n > limit:
            raise Unsupported('more than %d paths' % limit)
        vals = [v for v, b in run.taken]
        for i in range(len(p), len(vals)):
            if run.taken[i][1] and not vals[i]:
                stack.append(tuple(vals[:i]) + (True,))
        if not dead:
            yield run, r


HALT = None


class Machine:
    def __init__(self, repo, prims):
        self.repo = repo
        self.decl = {}
        self.libs = {}
        self.prims = prims
        self.expansions = 0
        self.run = Run()
        self.handler = None
        self.native = {}
        self.used = set()
        self.prims_used = set()
        self.closures_used = set()
        for f in sorted(glob.glob(os.path.join(repo, 'library', '*.ss'))):
            for x in Reader(open(f).read()).all():
                if isinstance(x, Pair) and x.car is S('define-library'):
                    self.decl[show(x.cdr.car)] = (x, os.path.basename(f))

    # libraries -------------------------------------------------------
    def imports(self, spec):
        """identifier -> binding"""
        if isinstance(spec, Pair) and isinstance(spec.cdr, Pair) and isinstance(spec.cdr.car, Pair):
            h = spec.car.name
            if h == 'only':
                d = self.imports(spec.cdr.car)
                return {i: d.get(i) or self.missing(spec, i) for i in items(spec.cdr.cdr)}
            if h == 'except':
                d = dict(self.imports(spec.cdr.car))
                for i in items(spec.cdr.cdr):
                    d.pop(i, None)
                return d
            if h == 'prefix':
                p = spec.cdr.cdr.car.name
                d = self.imports(spec.cdr.car)
                return Prefixed(d, p)
            if h == 'rename':
                d = dict(self.imports(spec.cdr.car))
                for r in items(spec.cdr.cdr):
                    a, b = items(r)
                    d[b] = d.pop(a)
                return d
        return self.library(show(spec))

    def missing(self, spec, i):
        return Cell(i)

    def library(self, name):
        if name in self.libs:
            return self.libs[name]
        if name not in self.decl:
            if name.startswith('(meevax '):
                self.libs[name] = Native(self, name)
                return self.libs[name]
            raise Unsupported('no library %s' % name)
        x, f = self.decl[name]
        top = Top(name)
        out = {}
        self.libs[name] = out
        exports = []
        bodies = []
        for d in items(x.cdr.cdr):
            k = d.car.name
            if k == 'import':
                for s in items(d.cdr):
                    m = self.imports(s)
                    if isinstance(m, dict):
                        top.b.update(m)
                    else:
                        top.b = Fallback(top.b, m)
            elif k == 'export':
                exports += items(d.cdr)
            elif k == 'begin':
                bodies.append(d.cdr)
            else:
                raise Unsupported('library declaration %s' % k)
        for b in bodies:
            for y in items(b):
                self.toplevel(y, top)
        for e in exports:
            if isinstance(e, Pair):
                _, a, b = items(e)
            else:
                a = b = e
            out[b] = lookup(a, top)
        return out

    def toplevel(self, x, top):
        while isinstance(x, Pair) and isid(x.car):
            b = lookup(x.car, top)
            if isinstance(b, Macro):
                x = expand(self, b, x, top)
                continue
            if isinstance(b, Core) and b.name == 'begin':
                v = UNSPEC
                for y in items(x.cdr):
                    v = self.toplevel(y, top)
                return v
            if isinstance(b, Core) and b.name == 'define':
                name, val = define_parts(x)
                kw = lookup(val, top) if isid(val) else None
                if isinstance(kw, (Core, Macro)):
                    top.b[name] = kw
                    return UNSPEC
                top.b[name] = Cell(name)      # a definition shadows an imported name
            break
        return self.execute(compile_(self, x, top))

    def transformer(self, x, sc):
        v = self.execute(compile_(self, x, sc), self.envof(sc))
        return v

    def envof(self, sc):
        # transformers are evaluated where no run-time frame exists; they may not refer to local variables
        return None

    def get(self, lib, name):
        """the value of an exported procedure"""
        b = self.library(lib).get(S(name))
        if b is None:
            raise Unsupported('%s does not export %s' % (lib, name))
        if isinstance(b, Cell):
            return b.v
        return b

    # machine ---------------------------------------------------------
    def nested(self, f, args):
        return self.loop('apply', f, list(args), None)

    def execute(self, node, env=None):
        return self.loop('eval', node, env, None)

    def call(self, run, f, args):
        """apply f to args in the given run, to the end"""
        old, self.run = self.run, run
        try:
            return self.loop('apply', f, list(args), None)
        finally:
            self.run = old

    def loop(self, mode, x, y, k):
        # mode eval: node x, env y; apply: f x, args y; ret: value x.  k: (kind, ..., next)
        run = self.run
        while True:
            run.steps += 1
            if run.steps > 400000:
                raise Unsupported('no end after 400000 steps')
            try:
                if mode == 'eval':
                    op = x[0]
                    if op == 'const':
                        mode, x = 'ret', x[1]
                    elif op == 'local':
                        e = y
                        for _ in range(x[1]):
                            e = e[0]
                        mode, x = 'ret', e[x[2]]
                    elif op == 'global':
                        v = x[1].v
                        if v is UNDEF:
                            v = self.undefined(x[1])
                        mode, x = 'ret', v
                    elif op == 'app':
                        f, args, rest = x[1], x[2], x[3]
                        if rest is not None:
                            k = ('rest', f, args, y, k)
                            x = rest
                        elif args:
                            n = len(args) - 1
                            k = ('arg', f, args, n, NIL, y, k)
                            x = args[n]
                        else:
                            k = ('op', NIL, k)
                            x = f
                    elif op == 'if':
                        k = ('if', x[2], x[3], y, k)
                        x = x[1]
                    elif op == 'lambda':
                        mode, x = 'ret', Closure(x[1], y)
                    elif op == 'seq':
                        k = ('seq', x[1], 1, y, k)
                        x = x[1][0]
                    elif op == 'frame':
                        y = [y] + [UNDEF] * x[1].n
                        x = x[2]
                    elif op == 'set':
                        k = ('set', x[1], x[2], y, k)
                        x = x[3]
                    elif op == 'gset':
                        k = ('gset', x[1], k)
                        x = x[2]
                    elif op == 'callcc':
                        k = ('callcc', k)
                        x = x[1]
                    elif op == 'current':
                        mode, x = 'ret', run.a[x[1]]
                    elif op == 'install':
                        k = ('install', x[1], k)
                        x = x[2]
                    else:
                        raise Unsupported(op)
                elif mode == 'apply':
                    f, args = x, y
                    if isinstance(f, Closure):
                        lam = f.lam
                        self.closures_used.add(lam.name)
                        n = lam.np
                        if len(args) < n:        # the machine does not check the number of arguments
                            args = args + [MISSING] * (n - len(args))
                        if lam.rest is None:
                            env = [f.env] + args[:n]
                        else:
                            env = [f.env] + args[:n] + [lst(args[n:])]
                        mode, x, y = 'eval', lam.code(self), env
                    elif isinstance(f, Prim):
                        if any(z is MISSING for z in args):
                            raise Thrown(Err('missing argument used'))
                        self.prims_used.add(f.name)
                        v = f.fn(run, args)
                        if isinstance(v, Tail):
                            x, y = v.f, list(v.args)
                        else:
                            mode, x = 'ret', v
                    elif isinstance(f, Unk):
                        v = f.fn(run, args) if f.fn else run.unknown(f, args)
                        if isinstance(v, Tail):
                            x, y = v.f, list(v.args)
                        else:
                            mode, x = 'ret', v
                    elif isinstance(f, Cont):
                        k = f.k
                        mode, x = 'ret', (args[0] if args else UNSPEC)
                    else:
                        raise SchemeError(Err('not applicable', lst([f])))
                else:
                    if k is HALT:
                        return x
                    kind = k[0]
                    if kind == 'arg':
                        _, f, args, n, acc, env, k2 = k
                        acc = Pair(x, acc)
                        if n:
                            n -= 1
                            k = ('arg', f, args, n, acc, env, k2)
                            mode, x, y = 'eval', args[n], env
                        else:
                            k = ('op', acc, k2)
                            mode, x, y = 'eval', f, env
                    elif kind == 'op':
                        mode, y, k = 'apply', items(k[1], 'argument list'), k[2]
                    elif kind == 'if':
                        _, a, b, env, k = k
                        mode, x, y = 'eval', (a if self.truth(x) else b), env
                    elif kind == 'seq':
                        _, xs, i, env, k2 = k
                        k = ('seq', xs, i + 1, env, k2) if i + 1 < len(xs) else k2
                        mode, x, y = 'eval', xs[i], env
                    elif kind == 'set':
                        _, d, i, env, k = k
                        for _ in range(d):
                            env = env[0]
                        env[i] = x
                    elif kind == 'gset':
                        k[1].v = x
                        k = k[2]
                    elif kind == 'callcc':
                        k = k[1]
                        mode, y = 'apply', [Cont(k)]
                    elif kind == 'install':
                        run.a[k[1]] = x
                        k = k[2]
                    elif kind == 'rest':
                        _, f, args, env, k2 = k
                        if args:
                            n = len(args) - 1
                            k = ('arg', f, args, n, x, env, k2)
                            mode, x, y = 'eval', args[n], env
                        else:
                            k = ('op', x, k2)
                            mode, x, y = 'eval', f, env
                    else:
                        raise Unsupported(kind)
            except SchemeError as e:
                h = self.handler
                if h is None:
                    raise
                mode, x, y, k = 'apply', h, [e.obj], HALT

    def truth(self, x):
        if isinstance(x, z3.BoolRef):
            return self.run.cond(x)
        return x is not False

    def undefined(self, cell):
        n = str(base(cell.name))
        raise SchemeError(Err('undefined variable %s' % n))


class Tail:
    """a primitive's result: call f"""

    def __init__(self, f, args):
        self.f, self.args = f, args


class Native(dict):
    """a (meevax ...) library of C++ procedures"""

    def __init__(self, M, name):
        super().__init__()
        self.M, self.name = M, name

    def get(self, i, d=None):
        if i in self:
            return self[i]
        n = i.name
        if self.name == '(meevax core)' and n in CORE:
            b = CORE[n]
        elif n in self.M.prims:
            self.M.used.add((self.name, n))
            b = Cell(i, Prim(n, self.M.prims[n]))
        else:
            def unsup(run, args, n=n):
                raise Unsupported('native procedure %s has no contract' % n)
            b = Cell(i, Prim(n, unsup))
        self[i] = b
        return b


class Prefixed:
    def __init__(self, d, p):
        self.d, self.p = d, p

    def get(self, i, d=None):
        if isinstance(i, Sym) and i.name.startswith(self.p):
            return self.d.get(S(i.name[len(self.p):]))
        return d


class Fallback(dict):
    """bindings, then those of a whole native library"""

    def __init__(self, first, then):
        super().__init__(first)
        self.then = list(getattr(first, 'then', ())) + [then]

    def get(self, i, d=None):
        if i in self:
            return dict.get(self, i)
        if isinstance(i, Sym):
            for t in self.then:
                if isinstance(t, Native) and not known_native(t, i):
                    continue
                v = t.get(i)
                if v is not None and not (isinstance(t, Prefixed) and isinstance(t.d, Native) and not known_native(t.d, S(i.name[len(t.p):]))):
                    return v
        return d


def known_native(t, i):
    return (i.name in t.M.prims and (t.name != '(meevax core)')) or (t.name == '(meevax core)' and i.name in CORE)
