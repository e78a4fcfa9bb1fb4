"""UTF-8 encoding and decoding (B04) and textual and binary ports (B07)."""
import itertools
import z3
from vf import data, oblig, smt, stream
from vf.data import Char, Err, Str, ANY
from vf.ext import TXT, stdstring
from vf.numspec import bool_is
from vf.oblig import Ob
from vf.sym import Ptr, is_c, Unsupported
from .objects import hv
from .chars import U32, scalar, enc, bv32

CLASSES = [(0, 0x7f), (0x80, 0x7ff), (0x800, 0xffff), (0x10000, 0x10ffff)]
SAMPLE = [[0, 1, 0x41, 0x7f], [0x80, 0xe9, 0x7ff], [0x800, 0x6f22, 0xfffd, 0xffff], [0x10000, 0x1f600, 0x10ffff]]


def char(W, n, nm):
    """an arbitrary character whose encoding has n bytes; n = 'x' an ASCII character other than newline, n = '\n' newline"""
    if n == '\n':
        return 10, [10]
    c = smt.fresh_bv(nm, 32)
    k = 1 if n == 'x' else n
    lo, hi = CLASSES[k - 1]
    W.st.assume(z3.And(z3.ULE(U32(lo), c), z3.ULE(c, U32(hi)), scalar(c)))
    if n == 'x':
        W.st.assume(c != U32(10))
    return c, enc(c)[k - 1][1]


def inport(*ns, more=True):
    """an input string port about to read characters of the given encoded lengths, then (more) anything"""
    def f(W, nm):
        cs, bs = [], []
        for i, n in enumerate(ns):
            c, b = char(W, n, '%s_%d' % (nm, i))
            cs.append(c)
            bs += b
        v = W.obj('instring')
        r = W.ref('vf_istream', W.st, W.slot(v.w)).r
        # one byte that was read before
        W.st.wreg(r).ghost['is'] = ((smt.fresh_bv('before', 8),) + tuple(bs), more, 1, 0)
        v.r, v.cs, v.bs = r, cs, bs
        v.grid_ = None
        return v
    f.label = 'in[%s%s]' % (','.join(repr(n) if isinstance(n, str) else str(n) for n in ns), ',...' if more else '')
    f.grid = [InPort(list(t)) for t in itertools.product(*[[10] if n == '\n' else SAMPLE[0 if n == 'x' else n - 1] for n in ns])]
    f.ns, f.more = ns, more
    return f


class InPort(data.Raw):
    def __init__(self, cps, tail=()):
        self.cps = cps
        data.Raw.__init__(self, '(open-input-string (string%s))' % ''.join(' (integer->char %d)' % c for c in cps), 'inport')


def left(cx_st, v, k):
    """obligation: exactly the bytes from the k-th character on are left"""
    bs, more, pos, fl = cx_st.reg(v.r).ghost['is']
    return pos, fl


def lens(f):
    return [1 if n in ('x', '\n') else n for n in f.ns]


class PortOb(Ob):
    """fn applied to args and a port; `spec(cs)` gives (result, number of characters consumed)"""

    def __init__(self, fn, args, pf, want, used, eof=False, level='proof', expr=None, oracle=None):
        self.pf, self.used = pf, used
        n0 = len(args)

        def post(W, st, xs, v):
            p = xs[n0]
            got = st.reg(p.r).ghost['is']
            k = 1 + sum(lens(pf)[:used])
            out = [('what is left in the port', got[0] == st_bytes(W, p) and got[2] == k)]
            if not eof:
                out.append(('the port can still be read', got[3] == 0 or (not pf.more and used == len(pf.ns) and got[3] & 1 == 0)))
            return out + want(W, st, p, v)
        super().__init__(fn, [oblig.kconst(a) if False else a for a in args] + [pf], post, level=level, frame=False,
                         name='%s %s%s' % (fn, ''.join('%s ' % a for a in args), pf.label), raw=True,
                         setup=real_text, imports=PORTS, prelude=PRE, expr=expr, oracle=oracle)


def st_bytes(W, p):
    return W.st.reg(p.r).ghost['is'][0]


PORTS = None
PRE = ''


def real_text(W):
    """let the conversion from UTF-8 text run instead of its contract"""
    W.ex.contracts = [t for t in W.ex.contracts if t is not TXT]


def is_char(W, st, w, c):
    d = W.decode(st, w)
    return [('a character', all(v.kind == 'char' for s, v in d)), ('the next character', z3.And([bv32(v.cp) == bv32(c) for s, v in d if v.kind == 'char'] or [z3.BoolVal(False)]))]


def is_eof(W, st, w):
    s = W.slot(w, st)
    return [('the end of file object', W.ex.call_fn(st.clone(), W.fn('vf_is_eof'), [s])[0].value == 1)]


def is_string(W, st, w, cs):
    out = []
    for s, v in W.decode(st, w):
        if v.kind != 'string':
            return [('a string', False)]
        out.append(('length', v.size == len(cs)))
        if v.size == len(cs):
            out += [('character %d' % i, bv32(a) == bv32(c)) for i, (a, c) in enumerate(zip(v.cps, cs))]
    return out


IMPORTS = '(scheme base) (scheme write) (scheme char) (prefix (meevax read) m:) (prefix (meevax write) m:) (prefix (meevax port) m:)'
REST = [0x2028, 0x41, 0x1f600]


def port_expr(fn, args, cps, more):
    s = ''.join(' (integer->char %d)' % c for c in list(cps) + (REST if more else []))
    a = ''.join(' %s' % a for a in args)
    return '(let* ((p (open-input-string (string%s))) (x (m:%s%s p))) (list x (let loop ((c (read-char p))) (if (eof-object? c) (list) (cons c (loop (read-char p)))))))' % (s, fn, a)


def L(*xs):
    return data.plist(xs)


class Eof:
    def __call__(self, g):
        return False


def in_ob(fn, args, pf, want, used, res, **kw):
    """res(cps): the expected result as data; what is left follows"""
    def oracle(*xs):
        cps = xs[-1].cps
        r = res(cps + (REST if pf.more else []))
        left = (cps + (REST if pf.more else []))[r[1]:]
        return L(r[0], L(*[Char(c) for c in left]))

    def expr(xs):
        return port_expr(fn, args, xs[-1].cps, pf.more)
    o = PortOb(fn, args, pf, want, used, expr=expr, oracle=oracle, **kw)
    o.imports = IMPORTS
    return o


EOFD = data.Other('eof')


def obs_in():
    obs = []
    first = lambda W, st, p, w: is_char(W, st, w, p.cs[0])
    for n in (1, 2, 3, 4):
        pf = inport(n)
        obs.append(in_ob('get-char', [], pf, first, 1, lambda cs: (Char(cs[0]), 1)))
        obs.append(in_ob('peek-char', [], pf, first, 0, lambda cs: (Char(cs[0]), 0)))
        pf = inport(n, more=False)
        obs.append(in_ob('peek-char', [], pf, first, 0, lambda cs: (Char(cs[0]), 0)))
    end = inport(more=False)
    for fn in ('get-char', 'peek-char', 'get-line'):
        obs.append(in_ob(fn, [], end, lambda W, st, p, w: is_eof(W, st, w), 0, lambda cs: (EOFD, 0), eof=True))
    # a line: the characters before the newline
    for ns in ([], ['x'], [2], [3], [4], ['x', 3], [4, 'x']):
        k = len(ns)
        pf = inport(*(ns + ['\n']))
        obs.append(in_ob('get-line', [], pf, lambda W, st, p, w, k=k: is_string(W, st, w, p.cs[:k]), k + 1, lambda cs: (Str(cs[:cs.index(10)]), cs.index(10) + 1), level='bounded'))
        if k:
            pf = inport(*ns, more=False)
            obs.append(in_ob('get-line', [], pf, lambda W, st, p, w, k=k: is_string(W, st, w, p.cs[:k]), k, lambda cs: (Str(cs), len(cs)), level='bounded', eof=True))
    # strings of a given length, or shorter at the end
    for k, ns, more in ((1, [1], True), (1, [4], True), (2, [3, 1], True), (2, [1, 2], True), (2, [3], False), (3, [1, 4], False), (1, [2, 1], False)):
        m = min(k, len(ns))
        obs.append(in_ob('get-string', [k], inport(*ns, more=more), lambda W, st, p, w, m=m: is_string(W, st, w, p.cs[:m]), m, lambda cs, k=k: (Str(cs[:k]), min(k, len(cs))), level='bounded', eof=not more))
    obs.append(in_ob('get-string', [2], end, lambda W, st, p, w: is_eof(W, st, w), 0, lambda cs: (EOFD, 0), eof=True))
    return obs


# ---------------------------------------------------------------- output
def outport(W, nm):
    v = W.obj('outstring')
    p = W.ref('vf_ostream', W.st, W.slot(v.w))
    v.r = p.r
    v.before = (smt.fresh_bv('before', 8),)
    W.st.wreg(p.r).ghost['os'] = v.before
    return v


outport.label = 'out'
outport.grid = [data.Raw('(open-output-string)', 'outport')]


def ch(n):
    def f(W, nm):
        c, bs = char(W, n, nm)
        v = W.char_c(c)
        v.bs = bs
        return v
    f.label = 'c%d' % n
    f.grid = [Char(c) for c in SAMPLE[n - 1]]
    return f


class Cp:
    def __init__(self, c):
        self.cp = c


def text(*ns):
    def f(W, nm):
        cs = [char(W, n, '%s_%d' % (nm, i)) for i, n in enumerate(ns)]
        v = W.string([Cp(c) for c, b in cs])
        v.bs = [x for c, b in cs for x in b]
        v.cs = [c for c, b in cs]
        return v
    f.label = 'text[%s]' % ','.join(map(str, ns))
    f.grid = [Str(list(t)) for t in itertools.product(*[SAMPLE[n - 1] for n in ns])]
    f.ns = ns
    return f


def same_bytes(got, want):
    if len(got) != len(want):
        return False
    return z3.And([b8(a) == b8(b) for a, b in zip(got, want)] or [z3.BoolVal(True)])


def b8(x):
    return z3.BitVecVal(x & 0xff, 8) if isinstance(x, int) else x


def obs_out():
    obs = []
    for fn, k in [('put-char', ch(n)) for n in (1, 2, 3, 4)] + [('put-string', text(*ns)) for ns in ((), (1,), (2,), (3,), (4,), (1, 3), (4, 2), (1, 1, 1))]:
        def post(W, st, xs, w):
            p = xs[1]
            return [('the port gains exactly the UTF-8 text', same_bytes(st.reg(p.r).ghost['os'], p.before + tuple(xs[0].bs)))]
        obs.append(Ob(fn, [k, outport], post, lambda x, p: Str([65] + ([x.cp] if isinstance(x, Char) else list(x.cps))), frame=False, raw=True, imports=IMPORTS, setup=real_text, level='proof' if fn == 'put-char' else 'bounded',
                      expr=lambda xs, fn=fn: '(let ((p (open-output-string))) (write-char #\\A p) (m:%s %s p) (get-output-string p))' % (fn, data.src(xs[0]))))
    return obs


# ---------------------------------------------------------------- strings and UTF-8 text
class TextOb(Ob):
    """string::utf8() and string(std::string) are inverse of each other, both standard UTF-8"""

    def __init__(self, ns, way):
        self.ns, self.way = ns, way
        k = text(*ns)
        super().__init__('utf8', [], None, name='string %s UTF-8, lengths %s' % (way, ns), call='', level='bounded', setup=real_text,
                         oracle=lambda s: data.plist([data.Bytes(''.join(map(chr, s.cps)).encode('utf-8')), s]), grid=lambda: [(s,) for s in k.grid], imports='(scheme base) (scheme write)',
                         expr=lambda xs: '(let ((b (string->utf8 %s))) (list b (utf8->string b)))' % data.src(xs[0]))

    def _verify(self, r):
        W = self.world()
        v = text(*self.ns)(W, 'x')
        s = W.slot(v.w)
        n = 0
        if self.way == 'to':
            this = self.this(W, s)
            ret = Ptr(W.ex.alloc(W.st, 32, 'text', 'heap'), 0)
            outs = W.ex.call_fn(W.st.clone(), W.fn('meevax::string::utf8() const'), [ret, this])
        else:
            arg = Ptr(W.ex.alloc(W.st, 32, 'text', 'heap'), 0)
            stream.put_string(W_cx(W), arg, v.bs)
            this = Ptr(W.ex.alloc(W.st, 24, 'string', 'heap'), 0)
            outs = W.ex.call_fn(W.st.clone(), W.fn('meevax::string::string(std::string const&)'), [this, arg])
        for o in outs:
            r['outs'] += 1
            if o.kind in ('bound', 'unsupported'):
                raise Unsupported('%s %s' % (o.kind, o.note))
            if o.kind != 'ret':
                self.vc(r, '%s: %s' % (o.kind, o.note), o.state, False, [])
                continue
            n += 1
            if self.way == 'to':
                self.vc(r, 'the UTF-8 text', o.state, same_bytes(stdstring(W_cx(W, o.state), ret), v.bs), [])
            else:
                st = o.state
                b, e = W.ex.load(st, this, 8), W.ex.load(st, Ptr(this.r, 8), 8)
                k = (e.off - b.off) // 4 if isinstance(b, Ptr) else 0
                self.vc(r, 'the number of characters', st, k == len(v.cs), [])
                if k == len(v.cs):
                    for i in range(k):
                        self.vc(r, 'character %d' % i, st, bv32(W.ex.load(st, Ptr(b.r, W.ex.add64(b.off, 4 * i)), 4)) == bv32(v.cs[i]), [])
        r['inlined'] = sorted(str(q) for q in W.ex.inlined)
        r['trusted'] = sorted(str(q) for q in W.ex.used_contracts)
        if not n:
            raise Unsupported('vacuous')

    def this(self, W, s):
        p = W.ref('vf_string_this', W.st, s)
        return p


class W_cx:
    def __init__(self, W, st=None):
        self.ex, self.st = W.ex, st or W.st


def texts():
    return [TextOb(ns, w) for w in ('to', 'from') for ns in ((), (1,), (2,), (3,), (4,), (1, 4), (3, 2), (2, 1, 3))]


# ---------------------------------------------------------------- binary ports
def u8s(n):
    f0 = hv('u8', n)

    def f(W, nm):
        v = f0(W, nm)
        return v
    f.label = 'u8[%d]' % n
    f.grid = [data.Bytes(bytes(t)) for t in itertools.islice(itertools.product((0, 7, 128, 255), repeat=n), 40)]
    f.n = n
    return f


def isu8(W, st, w, xs):
    """w is a bytevector of the bytes xs"""
    out = []
    for s, v in W.decode(st, w):
        if v.kind != 'u8vector' or v.size != len(xs):
            return [('a bytevector of %d bytes' % len(xs), False)]
        out += [('byte %d' % i, b8(a) == b8(b) if not (is_c(a) and is_c(b)) else (a & 255) == (b & 255)) for i, (a, b) in enumerate(zip(v.elems, xs))]
    return out


def isbyte(W, st, w, b):
    return [('the byte', W.ex.bv(w, 64) == z3.Concat(z3.BitVecVal(0x7ffa0000 << 8 >> 8, 32), z3.ZeroExt(24, b8(b))))]


def isbool(W, st, w, b):
    return [('#%s' % 'ft'[b], W.ex.bv(w, 64) == z3.BitVecVal((0x7ff9 << 48) | b, 64))]


def bin_oracle(bs, ops):
    i, out = 0, []
    for op in ops:
        if op in ('get', 'peek'):
            out.append(bs[i] if i < len(bs) else EOFD)
            i += op == 'get' and i < len(bs)
        elif op == 'ready':
            out.append(i < len(bs))
        elif op == 0:
            out.append(data.Bytes(b''))
        elif i == len(bs):
            out.append(EOFD)
        else:
            out.append(data.Bytes(bs[i:i + op]))
            i = min(len(bs), i + op)
    return L(*out)


def bin_in(n, ops):
    """reading n bytes by the operations: get, peek, ready, or a count"""
    steps = [('open-input-u8vector', [('x', 0)])]
    for op in ops:
        if isinstance(op, int):
            steps.append(('get-u8vector', [op, ('r', 0)]))
        else:
            steps.append(({'get': 'get-u8', 'peek': 'peek-u8', 'ready': 'get-u8-ready?'}[op], [('r', 0)]))

    def post(W, st, xs, rs):
        bs, i, out = xs[0].data, 0, []
        for op, w in zip(ops, rs[1:]):
            if op == 'ready':
                g = isbool(W, st, w, i < n)
            elif op != 0 and i == n:
                g = is_eof(W, st, w)
            elif op in ('get', 'peek'):
                g = isbyte(W, st, w, bs[i])
                i += op == 'get'
            else:
                g = isu8(W, st, w, bs[i:i + op])
                i = min(n, i + op)
            out += [('%s: %s' % (op, a), b) for a, b in g]
        return out
    e = ' '.join('(m:%s p)' % {'get': 'get-u8', 'peek': 'peek-u8', 'ready': 'get-u8-ready?'}[o] if isinstance(o, str) else '(m:get-u8vector %d p)' % o for o in ops)
    return oblig.Seq('binary input of %d bytes: %s' % (n, ' '.join(map(str, ops))), [u8s(n)], steps, post, level='bounded', imports=IMPORTS,
                     oracle=lambda b: bin_oracle(b.b, ops), expr=lambda xs: '(let* ((p (m:open-input-u8vector %s)) %s) (list %s))' % (data.src(xs[0]), ' '.join('(x%d %s)' % (i, t) for i, t in enumerate(['(m:%s p)' % {'get': 'get-u8', 'peek': 'peek-u8', 'ready': 'get-u8-ready?'}[o] if isinstance(o, str) else '(m:get-u8vector %d p)' % o for o in ops])), ' '.join('x%d' % i for i in range(len(ops)))))


def bin_out(ops):
    """writing bytes (0) and bytevectors (n > 0 bytes)"""
    kinds = [u8s(n) if n else byte for n in ops]
    steps = [('open-output-u8vector', [])]
    for i, n in enumerate(ops):
        steps.append(('put-u8vector' if n else 'put-u8', [('x', i), ('r', 0)]))
    steps.append(('get-output-u8vector', [('r', 0)]))
    steps.append(('get-output-u8vector', [('r', 0)]))

    def post(W, st, xs, rs):
        want = [b for x, n in zip(xs, ops) for b in (x.data if n else [x.data])]
        return isu8(W, st, rs[-1], want) + isu8(W, st, rs[-2], want)
    return oblig.Seq('binary output: %s' % list(ops), kinds, steps, post, level='bounded', imports=IMPORTS,
                     oracle=lambda *xs: data.Bytes(b''.join(x.b if isinstance(x, data.Bytes) else bytes([x]) for x in xs)),
                     expr=lambda xs: '(let ((p (m:open-output-u8vector))) %s (m:get-output-u8vector p))' % ' '.join('(m:put-%s %s p)' % ('u8vector' if isinstance(x, data.Bytes) else 'u8', data.src(x)) for x in xs))


def byte(W, nm):
    v = W.small(nm)
    W.st.assume(v.i >= 0)
    W.st.assume(v.i <= 255)
    W.st.assume(z3.ULE(v.bv, 255))
    v.data = z3.Extract(7, 0, v.bv)
    return v


byte.label = 'byte'
byte.grid = [0, 1, 127, 128, 255]


def binary():
    obs = [bin_in(n, ops) for n, ops in ((0, ['ready', 'peek', 'get', 'get']), (1, ['ready', 'peek', 'get', 'ready', 'get']), (3, ['get', 'peek', 'get', 'get', 'get', 'peek']),
                                         (0, [1]), (0, [0]), (2, [0, 1, 1, 1]), (3, [2, 'ready', 2, 1]), (2, [5, 'get']), (3, ['get', 3]), (1, ['get', 2]))]
    obs += [bin_out(ops) for ops in ((), (0,), (0, 0), (2,), (0, 2), (2, 0), (1, 0, 1))]
    return obs


def u8text():
    """string->u8vector and u8vector->string with ranges"""
    obs = []
    for ns in ((), (1,), (4,), (1, 3), (2, 4, 1)):
        for a, b in ((None, None),) + tuple((a, b) for a in range(len(ns) + 1) for b in [None] + list(range(a, len(ns) + 1))):
            args = [] if a is None else [a] if b is None else [a, b]
            lo, hi = a or 0, len(ns) if b is None else b

            def post(W, st, xs, w, lo=lo, hi=hi, ns=ns):
                return isu8(W, st, w, xs[0].bs[sum(ns[:lo]):sum(ns[:hi])])
            obs.append(Ob('string->u8vector', [text(*ns)] + args, post, lambda s, *r, lo=lo, hi=hi: data.Bytes(''.join(map(chr, s.cps[lo:hi])).encode()), level='bounded', setup=real_text, raw=True, frame=False, imports=IMPORTS2))

            def post(W, st, xs, w, lo=lo, hi=hi):
                return is_string(W, st, w, xs[0].cs[lo:hi])
            ia = [sum(ns[:k]) for k in args]
            obs.append(Ob('u8vector->string', [utf8(*ns)] + ia, post, lambda s, *r, ia=ia: Str([ord(c) for c in s.b[ia[0] if ia else 0:ia[1] if len(ia) > 1 else None].decode()]), level='bounded', setup=real_text, raw=True, frame=False, imports=IMPORTS2))
    return obs


def utf8(*ns):
    def f(W, nm):
        cs = [char(W, n, '%s_%d' % (nm, i)) for i, n in enumerate(ns)]
        bs = [x for c, b in cs for x in b]
        v = W.obj('u8vector', len(bs))
        p = W.run1('vf_u8vector_data', [W.slot(v.w)])
        for i, x in enumerate(bs):
            W.ex.store(W.st, Ptr(p.r, W.ex.add64(p.off, i)), 1, x)
        v.bs, v.cs = bs, [c for c, b in cs]
        return v
    f.label = 'utf8[%s]' % ','.join(map(str, ns))
    f.grid = [data.Bytes(''.join(map(chr, t)).encode('utf-8')) for t in itertools.product(*[SAMPLE[n - 1] for n in ns])]
    return f


IMPORTS2 = '(scheme base) (scheme write) (prefix (meevax vector homogeneous) m:)'


def string_ports():
    """open-input-string reads the text of its argument; get-output-string returns everything written"""
    obs = []
    for ns in ((), (1,), (3,), (2, 4), (1, 1, 3)):
        steps = [('open-input-string', [('x', 0)])] + [('get-char', [('r', 0)])] * (len(ns) + 1)

        def post(W, st, xs, rs, ns=ns):
            out = []
            for i in range(len(ns)):
                out += is_char(W, st, rs[1 + i], xs[0].cs[i])
            return out + is_eof(W, st, rs[-1])
        obs.append(oblig.Seq('open-input-string %s' % (ns,), [text(*ns)], steps, post, level='bounded', setup=real_text, imports=IMPORTS,
                             oracle=lambda s: L(*([Char(c) for c in s.cps] + [EOFD])), expr=lambda xs, n=len(ns): '(let* ((p (open-input-string %s)) %s) (list %s))' % (data.src(xs[0]), ' '.join('(x%d (m:get-char p))' % i for i in range(n + 1)), ' '.join('x%d' % i for i in range(n + 1)))))
    for ks in ((), (1,), (4,), (0, 2), (2, 1, 0)):
        # 0: put-char, n: put-string of n characters
        kinds = [ch(3) if n == 0 else text(*[1, 4, 2][:n]) if n < 4 else text(3, 1, 2, 2) for n in ks]
        steps = [('open-output-string', [])] + [('put-string' if n else 'put-char', [('x', i), ('r', 0)]) for i, n in enumerate(ks)] + [('get-output-string', [('r', 0)])] * 2

        def post(W, st, xs, rs, ks=ks):
            want = [c for x, n in zip(xs, ks) for c in (x.cs if n else [x.cp])]
            return is_string(W, st, rs[-1], want) + is_string(W, st, rs[-2], want)
        obs.append(oblig.Seq('open-output-string %s' % (ks,), kinds, steps, post, level='bounded', setup=real_text, imports=IMPORTS,
                             oracle=lambda *xs: Str([c for x in xs for c in (x.cps if isinstance(x, Str) else [x.cp])]),
                             expr=lambda xs: '(let ((p (open-output-string))) %s (get-output-string p))' % ' '.join('(m:put-%s %s p)' % ('string' if isinstance(x, Str) else 'char', data.src(x)) for x in xs)))
    return obs


# ---------------------------------------------------------------- files
def files(W):
    real_text(W)
    W.ex.contracts = [stream.FS] + list(W.ex.contracts)
    W.ex.file = ((), False)


class FileSeq(oblig.Seq):
    def prepare(self, W, args):
        if args and hasattr(args[0], 'filedata'):
            W.ex.file = (args[0].filedata, False)


def contents(n):
    """not an argument: the contents of the file, n bytes"""
    def f(W, nm):
        v = oblig.Num(0)
        v.filedata = [smt.fresh_bv('file%d' % i, 8) for i in range(n)]
        v.chars = [type('B', (), {'cp': b}) for b in v.filedata]
        v.kind = 'string'
        return v
    f.label = 'file[%d]' % n
    f.grid = [Str(t) for t in itertools.islice(itertools.product((0, 7, 128, 255), repeat=n), 40)]
    return f


def utf8file(*ns):
    def f(W, nm):
        v = oblig.Num(0)
        cs = [char(W, n, '%s_%d' % (nm, i)) for i, n in enumerate(ns)]
        v.filedata = [x for c, b in cs for x in b]
        v.cs = [c for c, b in cs]
        v.kind = 'string'
        v.chars = [Cp(c) for c in v.cs]
        return v
    f.label = 'file[%s]' % ','.join(map(str, ns))
    f.grid = text(*ns).grid
    return f


def name(W, nm):
    return W.string([Cp(z3.BitVecVal(102, 32))])


name.label = 'f'
name.grid = [Str([102])]


OPS = {'get': 'get-u8', 'peek': 'peek-u8', 'char': 'get-char', 'peekc': 'peek-char'}


def letseq(pre, steps, last=None):
    return '(let* (%s) (list %s))' % (' '.join(pre + ['(x%d %s)' % (i, t) for i, t in enumerate(steps)]), ' '.join('x%d' % i for i in range(len(steps))))


def file_objs():
    obs = []
    for n, ops in ((0, ['peek', 'get', 'peek']), (1, ['peek', 'get', 'peek', 'get']), (2, ['get', 'get', 'get']), (0, [2]), (2, [2, 1]), (3, [2, 2, 'peek']), (2, ['get', 5]), (1, [0, 1])):
        steps = [('open-binary-input-file', [('x', 1)]), ('open?', [('r', 0)])]
        for op in ops:
            steps.append(('get-u8vector', [op, ('r', 0)]) if isinstance(op, int) else (OPS[op], [('r', 0)]))
        steps += [('close', [('r', 0)]), ('open?', [('r', 0)])]

        def post(W, st, xs, rs, ops=ops, n=n):
            bs, i, out = xs[0].filedata, 0, isbool(W, st, rs[1], 1) + isbool(W, st, rs[-1], 0)
            for op, w in zip(ops, rs[2:]):
                if op != 0 and i == n:
                    g = is_eof(W, st, w)
                elif op in ('get', 'peek'):
                    g = isbyte(W, st, w, bs[i])
                    i += op == 'get'
                else:
                    g = isu8(W, st, w, bs[i:i + op])
                    i = min(n, i + op)
                out += [('%s: %s' % (op, a), b) for a, b in g]
            return out

        def ex(xs, ops=ops):
            bs = ' '.join(str(c & 255) for c in xs[0].cps)
            return letseq(['(o (m:open-binary-output-file "f"))', '(u (m:put-u8vector (bytevector %s) o))' % bs, '(v (m:close o))', '(p (m:open-binary-input-file "f"))'],
                          ['(m:get-u8vector %d p)' % o if isinstance(o, int) else '(m:%s p)' % OPS[o] for o in ops])
        obs.append(FileSeq('binary input file of %d bytes: %s' % (n, ' '.join(map(str, ops))), [contents(n), name], steps, post, level='bounded', setup=files, imports=IMPORTS,
                           oracle=lambda s, nm, ops=ops: bin_oracle(bytes(c & 255 for c in s.cps), ops), expr=ex))
    for ops in ((), (0,), (2,), (0, 2, 0), (1, 0)):
        kinds = [name] + [u8s(n) if n else byte for n in ops]
        steps = [('open-binary-output-file', [('x', 0)]), ('open?', [('r', 0)])] + [('put-u8vector' if n else 'put-u8', [('x', 1 + i), ('r', 0)]) for i, n in enumerate(ops)] + [('flush', [('r', 0)]), ('close', [('r', 0)]), ('open?', [('r', 0)])]

        def post(W, st, xs, rs, ops=ops):
            want = [b for x, n in zip(xs[1:], ops) for b in (x.data if n else [x.data])]
            return [('the bytes of the file', same_bytes(st.reg(W.ex.opened).ghost['os'], want))] + isbool(W, st, rs[1], 1) + isbool(W, st, rs[-1], 0)
        obs.append(FileSeq('binary output file: %s' % (ops,), kinds, steps, post, level='bounded', setup=files, imports=IMPORTS,
                           oracle=lambda nm, *xs: L(data.Bytes(b''.join(x.b if isinstance(x, data.Bytes) else bytes([x]) for x in xs)) if xs else EOFD),
                           expr=lambda xs: '(let ((o (m:open-binary-output-file "f"))) %s (m:close o) (list (m:get-u8vector 99 (m:open-binary-input-file "f"))))' % ' '.join('(m:put-%s %s o)' % ('u8vector' if isinstance(x, data.Bytes) else 'u8', data.src(x)) for x in xs[1:])))
    for ns in ((), (1,), (2, 3), (4, 1)):
        steps = [('open-input-file', [('x', 1)]), ('open?', [('r', 0)])] + [('get-char', [('r', 0)])] * (len(ns) + 1) + [('close', [('r', 0)]), ('open?', [('r', 0)])]

        def post(W, st, xs, rs, ns=ns):
            out = isbool(W, st, rs[1], 1) + isbool(W, st, rs[-1], 0)
            for i in range(len(ns)):
                out += is_char(W, st, rs[2 + i], xs[0].cs[i])
            return out + is_eof(W, st, rs[2 + len(ns)])
        obs.append(FileSeq('input file %s' % (ns,), [utf8file(*ns), name], steps, post, level='bounded', setup=files, imports=IMPORTS,
                           oracle=lambda s, nm: L(*([Char(c) for c in s.cps] + [EOFD])),
                           expr=lambda xs, n=len(ns): letseq(['(o (m:open-output-file "f"))', '(u (m:put-string %s o))' % data.src(xs[0]), '(v (m:close o))', '(p (m:open-input-file "f"))'], ['(m:get-char p)'] * (n + 1))))
    for ks in ((), (1,), (4,), (0, 2), (2, 0)):
        kinds = [name] + [ch(3) if n == 0 else text(*[1, 4, 2][:n]) if n < 4 else text(3, 1, 2, 2) for n in ks]
        steps = [('open-output-file', [('x', 0)]), ('open?', [('r', 0)])] + [('put-string' if n else 'put-char', [('x', 1 + i), ('r', 0)]) for i, n in enumerate(ks)] + [('flush', [('r', 0)]), ('close', [('r', 0)]), ('open?', [('r', 0)])]

        def post(W, st, xs, rs, ks=ks):
            want = [b for x in xs[1:] for b in x.bs]
            return [('the text of the file', same_bytes(st.reg(W.ex.opened).ghost['os'], want))] + isbool(W, st, rs[1], 1) + isbool(W, st, rs[-1], 0)
        obs.append(FileSeq('output file: %s' % (ks,), kinds, steps, post, level='bounded', setup=files, imports=IMPORTS,
                           oracle=lambda nm, *xs: L(*[Char(c) for x in xs for c in (x.cps if isinstance(x, Str) else [x.cp])]),
                           expr=lambda xs: '(let ((o (m:open-output-file "f"))) %s (m:close o) (let ((p (m:open-input-file "f"))) (let loop ((c (m:get-char p))) (if (eof-object? c) (list) (cons c (loop (m:get-char p)))))))' % ' '.join('(m:put-%s %s o)' % ('string' if isinstance(x, Str) else 'char', data.src(x)) for x in xs[1:])))
    return obs


def bad():
    """a byte that starts no UTF-8 sequence is an error, not a character"""
    def badport(W, nm):
        v = W.obj('instring')
        r = W.ref('vf_istream', W.st, W.slot(v.w)).r
        b = smt.fresh_bv('lead', 8)
        W.st.assume(z3.Or(z3.And(z3.ULE(0x80, b), z3.ULT(b, 0xc2)), z3.ULT(0xf4, b)))
        W.st.wreg(r).ghost['is'] = ((b,), True, 0, 0)
        return v
    badport.label = 'in[invalid lead byte,...]'
    badport.grid = [data.Raw('(let* ((o (m:open-binary-output-file "f")) (u (m:put-u8vector (bytevector %d 191 191 191 65) o)) (v (m:close o))) (m:open-input-file "f"))' % b, 'port') for b in (0x80, 0xbf, 0xc0, 0xc1, 0xf5, 0xff)]
    return [Ob(fn, [badport], lambda *a: [], lambda p: data.Err, err=lambda p: True, frame=False, raw=True, setup=real_text, imports=IMPORTS) for fn in ('get-char', 'peek-char')]


def b07(tier):
    return obs_in() + obs_out() + string_ports() + binary() + file_objs() + bad()
