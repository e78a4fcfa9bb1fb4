"""Textual LLVM IR (LLVM 18, opaque pointers) reader.

Functions are indexed eagerly and parsed lazily.  Nothing is dropped: an
instruction or constant this reader does not understand raises Unsupported,
which makes the function that contains it undecided, never accepted.
"""
import re


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- types
# ('i', n) ('ptr',) ('float',) ('double',) ('x86_fp80',) ('void',)
# ('arr', n, t) ('struct', (t...), packed) ('named', name) ('vec', n, t)
# ('label',) ('metadata',) ('opaque',) ('fn', ret, (args), vararg)

PTR = ('ptr',)
VOID = ('void',)
DOUBLE = ('double',)
FLOAT = ('float',)


def I(n):
    return ('i', n)


TOKEN = re.compile(r'''
    (?P<ws>\s+|;[^\n]*)
  | (?P<str>c?"(?:[^"\\]|\\.)*")
  | (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
  | (?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
  | (?P<attr>\#\d+)
  | (?P<meta>![-a-zA-Z$._0-9]*)
  | (?P<comdat>\$(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
  | (?P<float>[-+]?\d+\.\d*(?:[eE][-+]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+)
  | (?P<int>-?\d+)
  | (?P<word>[a-zA-Z_][a-zA-Z0-9_.]*)
  | (?P<dots>\.\.\.)
  | (?P<p>[()\[\]{}<>,=*|:])
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOKEN.match(s, pos)
        if not m:
            raise Unsupported('token: %r' % s[pos:pos + 40])
        pos = m.end()
        k = m.lastgroup
        if k == 'ws':
            continue
        out.append((k, m.group()))
    return out


def unq(name):
    """strip sigil and quotes"""
    b = name[1:]
    if b.startswith('"'):
        b = b[1:-1]
        b = re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), b)
    return b


ATTR_WORDS = {
    'noundef', 'nonnull', 'nocapture', 'readonly', 'readnone', 'writeonly', 'noalias', 'returned',
    'signext', 'zeroext', 'inreg', 'nest', 'swiftself', 'immarg', 'nofree', 'noinline', 'allocptr', 'writable',
    'dead_on_unwind', 'allocalign', 'dso_local', 'dso_preemptable', 'local_unnamed_addr', 'unnamed_addr',
    'fastcc', 'ccc', 'coldcc', 'tail', 'notail', 'musttail', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast',
    'nuw', 'nsw', 'exact', 'inbounds', 'disjoint', 'nneg', 'samesign', 'volatile', 'inrange',
    'private', 'internal', 'available_externally', 'linkonce', 'weak', 'common', 'appending', 'extern_weak',
    'linkonce_odr', 'weak_odr', 'external', 'hidden', 'protected', 'default', 'thread_local', 'externally_initialized',
}
ATTR_PAREN = {'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'byref', 'elementtype', 'range', 'nofpclass', 'memory', 'preallocated', 'inalloca', 'initializes', 'thread_local', 'captures'}


class P:
    """token cursor"""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def at(self, v):
        return self.i < len(self.t) and self.t[self.i][1] == v

    def accept(self, v):
        if self.at(v):
            self.i += 1
            return True
        return False

    def expect(self, v):
        x = self.next()
        if x[1] != v:
            raise Unsupported('expected %r got %r in %r' % (v, x, ' '.join(t[1] for t in self.t[:60])))

    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            v = self.next()[1]
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1

    def attrs(self):
        while True:
            k, v = self.peek()
            if k == 'word':
                if v in ATTR_PAREN and self.peek(1)[1] == '(':
                    self.next()
                    self.skip_parens()
                    continue
                if v == 'align':
                    self.next()
                    if self.accept('('):
                        self.next()
                        self.expect(')')
                    else:
                        self.next()
                    continue
                if v == 'addrspace' and self.peek(1)[1] == '(':
                    self.next()
                    self.skip_parens()
                    continue
                if v in ATTR_WORDS:
                    self.next()
                    continue
            if k == 'attr':
                self.next()
                continue
            if k == 'str' and not v.startswith('c'):
                self.next()
                if self.accept('='):
                    self.next()
                continue
            return

    # ---- types
    def type(self):
        t = self.type0()
        while True:
            if self.at('('):  # function type
                self.next()
                args = []
                va = False
                while not self.at(')'):
                    if self.peek()[0] == 'dots':
                        self.next()
                        va = True
                    else:
                        args.append(self.type())
                        self.attrs()
                    self.accept(',')
                self.next()
                t = ('fn', t, tuple(args), va)
            elif self.at('*'):
                self.next()
                t = PTR
            else:
                return t

    def type0(self):
        k, v = self.next()
        if k == 'word':
            if v == 'ptr':
                if self.at('addrspace'):
                    raise Unsupported('addrspace')
                return PTR
            if v[0] == 'i' and v[1:].isdigit():
                return ('i', int(v[1:]))
            if v in ('float', 'double', 'void', 'label', 'metadata', 'x86_fp80', 'opaque', 'half', 'fp128', 'token'):
                return (v,)
        if k == 'loc':
            return ('named', unq(v))
        if v == '[':
            n = int(self.next()[1])
            self.expect('x')
            t = self.type()
            self.expect(']')
            return ('arr', n, t)
        if v == '{':
            return self.struct_rest(False)
        if v == '<':
            if self.at('{'):
                self.next()
                t = self.struct_rest(True)
                self.expect('>')
                return t
            n = int(self.next()[1])
            self.expect('x')
            t = self.type()
            self.expect('>')
            return ('vec', n, t)
        raise Unsupported('type %r' % (v,))

    def struct_rest(self, packed):
        fs = []
        while not self.at('}'):
            fs.append(self.type())
            self.accept(',')
        self.next()
        return ('struct', tuple(fs), packed)

    # ---- values. Constants: ('int', n) ('fpbits', n) ('null',) ('undef',) ('zero',)
    # ('glob', name) ('agg', [(t, v)..]) ('str', bytes) ('ce', op, ...)   registers: ('reg', name)
    def value(self, ty):
        k, v = self.next()
        if k == 'loc':
            return ('reg', unq(v))
        if k == 'glob':
            return ('glob', unq(v))
        if k == 'int':
            if ty[0] in ('float', 'double'):
                return ('fp', float(v))
            return ('int', int(v))
        if k == 'float':
            return ('fplit', v)
        if k == 'word':
            if v == 'true':
                return ('int', 1)
            if v == 'false':
                return ('int', 0)
            if v == 'null':
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v == 'zeroinitializer':
                return ('zero',)
            if v == 'none':
                return ('zero',)
            if v in ('getelementptr',):
                self.attrs()
                self.expect('(')
                bt = self.type()
                self.expect(',')
                self.attrs()
                ops = [self.tv()]
                while self.accept(','):
                    self.attrs()
                    ops.append(self.tv())
                self.expect(')')
                return ('ce', 'gep', bt, ops)
            if v in ('bitcast', 'inttoptr', 'ptrtoint', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.expect('(')
                a = self.tv()
                self.expect('to')
                t = self.type()
                self.expect(')')
                return ('ce', v, a, t)
            if v in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                self.attrs()
                self.expect('(')
                a = self.tv()
                self.expect(',')
                b = self.tv()
                self.expect(')')
                return ('ce', v, a, b)
            if v == 'icmp':
                pred = self.next()[1]
                self.expect('(')
                a = self.tv()
                self.expect(',')
                b = self.tv()
                self.expect(')')
                return ('ce', 'icmp', pred, a, b)
            if v in ('dso_local_equivalent', 'no_cfi'):
                return ('glob', unq(self.next()[1]))
            if v == 'asm':
                self.attrs()
                while self.peek()[0] in ('str', 'word') or self.at(','):
                    if self.at('('):
                        break
                    self.next()
                return ('asm',)
        if k == 'str' and v.startswith('c"'):
            b = bytearray()
            s = v[2:-1]
            i = 0
            while i < len(s):
                if s[i] == '\\':
                    if s[i + 1] == '\\':
                        b.append(92)
                        i += 2
                    else:
                        b.append(int(s[i + 1:i + 3], 16))
                        i += 3
                else:
                    b.append(ord(s[i]))
                    i += 1
            return ('str', bytes(b))
        if v == '{':
            el = self.elems('}')
            return ('agg', el)
        if v == '[':
            return ('agg', self.elems(']'))
        if v == '<':
            if self.at('{'):
                self.next()
                el = self.elems('}')
                self.expect('>')
                return ('agg', el)
            return ('agg', self.elems('>'))
        if k == 'meta':
            # skip metadata operand
            if self.at('('):
                self.skip_parens()
            return ('meta',)
        raise Unsupported('value %r' % (v,))

    def elems(self, close):
        el = []
        while not self.at(close):
            el.append(self.tv())
            self.accept(',')
        self.next()
        return el

    def tv(self):
        t = self.type()
        self.attrs()
        if t == ('metadata',):
            k, v = self.peek()
            if k == 'meta':
                self.next()
                if self.at('('):
                    self.skip_parens()
                elif self.at('{'):
                    d = 0
                    while True:
                        v = self.next()[1]
                        d += v == '{'
                        d -= v == '}'
                        if d == 0:
                            break
                return (t, ('meta',))
            return self.tv()
        return (t, self.value(t))


class Instr:
    __slots__ = ('op', 'dst', 'ty', 'a', 'line')

    def __init__(self, op, dst, ty, a, line=None):
        self.op = op
        self.dst = dst
        self.ty = ty
        self.a = a
        self.line = line

    def __repr__(self):
        return '%s = %s %s %s' % (self.dst, self.op, self.ty, self.a)


class Func:
    def __init__(self, mod, name, header, body):
        self.mod = mod
        self.name = name
        self.header = header
        self.body = body
        self.parsed = False
        self.dem = None

    @property
    def declared(self):
        return self.body is None

    def parse(self):
        if self.parsed:
            return self
        self.parsed = True
        m = re.match(r'(?:define|declare)\s', self.header)
        p = P(tokenize(self.header[m.end():].rstrip('{ \n')), self.mod)
        # return type: skip linkage etc.
        p.attrs()
        while p.peek()[0] == 'word' and p.peek()[1] in ATTR_WORDS:
            p.attrs()
        self.ret = p.type0()
        p.attrs()
        k, v = p.next()
        while k != 'glob':
            k, v = p.next()
        p.expect('(')
        self.params = []
        self.vararg = False
        self.sret = False
        n = 0
        while not p.at(')'):
            if p.peek()[0] == 'dots':
                p.next()
                self.vararg = True
            else:
                t = p.type()
                if p.at('sret') and n == 0:
                    self.sret = True
                p.attrs()
                if p.peek()[0] == 'loc':
                    nm = unq(p.next()[1])
                else:
                    nm = str(n)
                self.params.append((t, nm))
                n += 1
            p.accept(',')
        self.blocks = {}
        self.entry = None
        if self.body is not None:
            self._parse_body()
        return self

    def _parse_body(self):
        cur = None
        lines = self.body
        i = 0
        first = True
        while i < len(lines):
            ln = lines[i]
            i += 1
            s = ln.strip()
            if not s or s.startswith(';'):
                continue
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', ln)
            if m:
                lab = m.group(1)
                if lab.startswith('"'):
                    lab = unq('%' + lab)
                cur = []
                self.blocks[lab] = cur
                if first:
                    self.entry = lab
                    first = False
                continue
            if first:
                # implicit entry label: number of params
                lab = str(len([1 for (t, nm) in self.params if nm.isdigit()]))
                cur = []
                self.blocks[lab] = cur
                self.entry = lab
                first = False
            # multi-line instrs: switch [ ... ], landingpad clauses, invoke
            if s.startswith('switch') and not s.endswith(']'):
                while not lines[i].strip().startswith(']'):
                    s += ' ' + lines[i].strip()
                    i += 1
                s += ' ]'
                i += 1
            elif 'landingpad' in s:
                while i < len(lines) and re.match(r'^\s+(cleanup|catch|filter)', lines[i]):
                    s += ' ' + lines[i].strip()
                    i += 1
            elif re.search(r'(^|= )invoke ', s):
                s += ' ' + lines[i].strip()
                i += 1
            cur.append(s)

    def instrs(self, lab):
        b = self.blocks[lab]
        if b and isinstance(b[0], str):
            b2 = []
            for s in b:
                ins = parse_instr(s, self.mod)
                if ins is not None:
                    b2.append(ins)
            self.blocks[lab] = b2
            return b2
        return b


BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr', 'bitcast'}


def parse_instr(s, mod):
    p = P(tokenize(s), mod)
    dst = None
    if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
        dst = unq(p.next()[1])
        p.next()
    k, op = p.next()
    if op in ('tail', 'notail', 'musttail'):
        k, op = p.next()
    if op in BINOPS:
        p.attrs()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return Instr('bin', dst, t, (op, a, b))
    if op in CASTS:
        p.attrs()
        t, a = p.tv()
        p.expect('to')
        t2 = p.type()
        return Instr('cast', dst, t2, (op, t, a))
    if op == 'fneg':
        p.attrs()
        t, a = p.tv()
        return Instr('fneg', dst, t, (a,))
    if op in ('icmp', 'fcmp'):
        p.attrs()
        pred = p.next()[1]
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return Instr(op, dst, ('i', 1), (pred, t, a, b))
    if op == 'load':
        p.accept('atomic')
        p.attrs()
        t = p.type()
        p.expect(',')
        _, a = p.tv()
        return Instr('load', dst, t, (a,))
    if op == 'store':
        p.accept('atomic')
        p.attrs()
        t, v = p.tv()
        p.expect(',')
        _, a = p.tv()
        return Instr('store', None, t, (v, a))
    if op == 'alloca':
        p.accept('inalloca')
        t = p.type()
        cnt = ('int', 1)
        if p.accept(','):
            if not p.at('align') and not p.at('addrspace'):
                _, cnt = p.tv()
        return Instr('alloca', dst, t, (cnt,))
    if op == 'getelementptr':
        p.attrs()
        bt = p.type()
        p.expect(',')
        ops = [p.tv()]
        while p.accept(','):
            if p.peek()[0] == 'meta':
                break
            ops.append(p.tv())
        return Instr('gep', dst, PTR, (bt, ops))
    if op == 'phi':
        p.attrs()
        t = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            l = unq(p.next()[1])
            p.expect(']')
            inc.append((l, v))
            if not p.accept(','):
                break
            if p.peek()[0] == 'meta':
                break
        return Instr('phi', dst, t, (inc,))
    if op == 'select':
        p.attrs()
        tc, c = p.tv()
        p.expect(',')
        t, a = p.tv()
        p.expect(',')
        _, b = p.tv()
        return Instr('select', dst, t, (c, a, b))
    if op in ('call', 'invoke'):
        while p.peek()[1] in ATTR_WORDS:
            p.attrs()
        p.attrs()
        rt = p.type()
        p.attrs()
        callee = p.value(PTR)
        p.expect('(')
        args = []
        while not p.at(')'):
            args.append(p.tv())
            p.accept(',')
        p.next()
        p.attrs()
        if p.at('['):
            while not p.at(']'):
                p.next()
            p.next()
        norm = unw = None
        if op == 'invoke':
            while not p.at('to'):
                p.next()
            p.expect('to')
            p.expect('label')
            norm = unq(p.next()[1])
            p.expect('unwind')
            p.expect('label')
            unw = unq(p.next()[1])
        ret = rt[1] if rt[0] == 'fn' else rt
        return Instr('call', dst, ret, (callee, args, norm, unw), s)
    if op == 'br':
        if p.accept('label'):
            return Instr('br', None, None, (unq(p.next()[1]),))
        t, c = p.tv()
        p.expect(',')
        p.expect('label')
        a = unq(p.next()[1])
        p.expect(',')
        p.expect('label')
        b = unq(p.next()[1])
        return Instr('cbr', None, None, (c, a, b))
    if op == 'switch':
        t, v = p.tv()
        p.expect(',')
        p.expect('label')
        d = unq(p.next()[1])
        p.expect('[')
        cases = []
        while not p.at(']'):
            _, c = p.tv()
            p.expect(',')
            p.expect('label')
            cases.append((c[1], unq(p.next()[1])))
        return Instr('switch', None, t, (v, d, cases))
    if op == 'ret':
        if p.accept('void'):
            return Instr('ret', None, VOID, (None,))
        t, v = p.tv()
        return Instr('ret', None, t, (v,))
    if op == 'unreachable':
        return Instr('unreachable', None, None, ())
    if op == 'extractvalue':
        t, v = p.tv()
        idx = []
        while p.accept(','):
            if p.peek()[0] == 'meta':
                break
            idx.append(int(p.next()[1]))
        return Instr('extractvalue', dst, None, (t, v, idx))
    if op == 'insertvalue':
        t, v = p.tv()
        p.expect(',')
        t2, v2 = p.tv()
        idx = []
        while p.accept(','):
            if p.peek()[0] == 'meta':
                break
            idx.append(int(p.next()[1]))
        return Instr('insertvalue', dst, t, (v, t2, v2, idx))
    if op == 'landingpad':
        t = p.type()
        cl = []
        cleanup = False
        while p.peek()[0] is not None:
            w = p.next()[1]
            if w == 'cleanup':
                cleanup = True
            elif w in ('catch', 'filter'):
                cl.append((w, p.tv()))
            else:
                break
        return Instr('landingpad', dst, t, (cleanup, cl))
    if op == 'resume':
        t, v = p.tv()
        return Instr('resume', None, t, (v,))
    if op == 'freeze':
        t, v = p.tv()
        return Instr('freeze', dst, t, (v,))
    if op == 'fence':
        return None
    if op == 'atomicrmw':
        p.attrs()
        rop = p.next()[1]
        _, a = p.tv()
        p.expect(',')
        t, v = p.tv()
        return Instr('atomicrmw', dst, t, (rop, a, v))
    if op == 'cmpxchg':
        p.accept('weak')
        p.attrs()
        _, a = p.tv()
        p.expect(',')
        t, c = p.tv()
        p.expect(',')
        _, n = p.tv()
        return Instr('cmpxchg', dst, ('struct', (t, ('i', 1)), False), (t, a, c, n))
    if op in ('extractelement', 'insertelement', 'shufflevector', 'va_arg'):
        return Instr('unsupported', dst, None, (s,))
    raise Unsupported('instr %r' % s)


class Module:
    def __init__(self, path, key):
        self.key = key
        self.path = path
        self.types = {}
        self.globals = {}   # name -> (line)
        self.funcs = {}
        self.aliases = {}
        self._ginit = {}
        self._tcache = {}
        with open(path) as f:
            lines = f.read().split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                nm = self._fname(ln)
                self.funcs[nm] = Func(self, nm, ln, lines[i + 1:j])
                i = j + 1
                continue
            if ln.startswith('declare '):
                nm = self._fname(ln)
                if nm not in self.funcs:
                    self.funcs[nm] = Func(self, nm, ln, None)
            elif ln.startswith('@'):
                m = re.match(r'@(?:"((?:[^"\\]|\\.)*)"|([-a-zA-Z$._0-9]+)) = ', ln)
                nm = unq('@"' + m.group(1) + '"') if m.group(1) is not None else m.group(2)
                self.globals[nm] = ln[m.end():]
            elif ln.startswith('%'):
                m = re.match(r'(%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)) = type (.*)$', ln)
                if m:
                    self.types[unq(m.group(1))] = m.group(2)
            i += 1

    def _fname(self, ln):
        m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', ln)
        return unq('@' + m.group(1))

    # ---- layout
    def resolve(self, t):
        while t[0] == 'named':
            nm = t[1]
            r = self._tcache.get(nm)
            if r is None:
                body = self.types[nm]
                p = P(tokenize(body), self)
                r = p.type()
                self._tcache[nm] = r
            t = r
        return t

    def sizeof(self, t):
        return self.layout(t)[0]

    def layout(self, t):
        """(size, align, offsets)"""
        key = ('L', t)
        r = self._tcache.get(key)
        if r is None:
            r = self._layout(t)
            self._tcache[key] = r
        return r

    def _layout(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            n = t[1]
            b = (n + 7) // 8
            s = 1
            while s < b:
                s *= 2
            return (s, min(s, 16), None)
        if k == 'ptr':
            return (8, 8, None)
        if k == 'double':
            return (8, 8, None)
        if k == 'float':
            return (4, 4, None)
        if k == 'x86_fp80':
            return (16, 16, None)
        if k == 'arr':
            s, a, _ = self.layout(t[2])
            return (s * t[1], a, None)
        if k == 'vec':
            s, a, _ = self.layout(t[2])
            return (s * t[1], s * t[1], None)
        if k == 'struct':
            off = 0
            al = 1
            offs = []
            for f in t[1]:
                s, a, _ = self.layout(f)
                if not t[2]:
                    off = (off + a - 1) // a * a
                    al = max(al, a)
                offs.append(off)
                off += s
            if not t[2]:
                off = (off + al - 1) // al * al
            return (off, al, offs)
        if k == 'opaque':
            return (0, 1, None)
        raise Unsupported('layout %r' % (t,))

    def global_def(self, name):
        """(type, init or None, is_const, kind)"""
        r = self._ginit.get(name)
        if r is not None:
            return r
        s = self.globals[name]
        p = P(tokenize(s), self)
        ext = False
        const = False
        alias = False
        linkage = ''
        while True:
            k, v = p.peek()
            if v in ('external', 'extern_weak'):
                ext = True
            if v in ('private', 'internal'):
                linkage = 'internal'
            if v == 'constant':
                const = True
                p.next()
                break
            if v == 'global':
                p.next()
                break
            if v == 'alias':
                alias = True
                p.next()
                break
            if v in ATTR_PAREN and p.peek(1)[1] == '(':
                p.next()
                p.skip_parens()
                continue
            p.next()
        t = p.type()
        init = None
        if alias:
            p.accept(',')
            init = p.tv()[1]
        elif not ext:
            init = p.value(t)
        r = (t, init, const, 'alias' if alias else linkage)
        self._ginit[name] = r
        return r

    def is_internal(self, name):
        if name in self.funcs:
            h = self.funcs[name].header
            return bool(re.match(r'define\s+(?:dso_local\s+)?(internal|private)\b', h))
        s = self.globals.get(name, '')
        return s.startswith('private') or s.startswith('internal')


class Program:
    def __init__(self, modules):
        self.modules = modules
        self.ext = {}       # external function name -> Func (definition)
        self.gext = {}      # external global name -> Module with definition
        for m in modules:
            for nm, f in m.funcs.items():
                if f.body is not None and not m.is_internal(nm):
                    self.ext.setdefault(nm, f)
            for nm, s in m.globals.items():
                if not m.is_internal(nm):
                    if not re.match(r'(external|extern_weak)\b', s):
                        self.gext.setdefault(nm, m)

    def find_func(self, mod, name):
        f = mod.funcs.get(name)
        if f is not None and f.body is not None:
            return f
        g = self.ext.get(name)
        if g is not None:
            return g
        # alias?
        m = mod if name in mod.globals else self.gext.get(name)
        if m is not None:
            t, init, c, kind = m.global_def(name)
            if kind == 'alias' and init[0] == 'glob':
                return self.find_func(m, init[1])
        return f
