"""Symbolic Scheme data on top of the executor, built and read back through the
project's own constructors and accessors (harness/h.cpp)."""
import os
import re
import z3
from . import build, ir, smt, sym, ext
from .sym import Ptr, State, Exec, Unsupported, is_c, simp

HARNESS = os.path.join(build.HERE, 'harness', 'h.cpp')
CORE = ['src/kernel/%s.cpp' % x for x in 'boot number large_integer ratio complex collector object pair string character list vector boolean number/bitwise number/nearest_integer number/power error box proper_list circular_list eof ghost symbol identity'.split()]


def sources(extra=()):
    out = [HARNESS]
    for s in CORE + list(extra):
        if os.path.exists(os.path.join(build.REPO, s)) and s not in out:
            out.append(s)
    return [HARNESS] + [os.path.relpath(s, build.REPO) for s in build.sources()]


_prog = {}


def program(extra=(), all_src=False):
    if all_src:
        srcs = [HARNESS] + [os.path.relpath(s, build.REPO) for s in build.sources()]
    else:
        srcs = sources(extra)
    k = tuple(srcs)
    if k not in _prog:
        _prog[k] = build.load_program(srcs)
    return _prog[k]


KIND = {0: 'null', 1: 'bool', 2: 'small', 3: 'float', 4: 'double', 5: 'char', 6: 'instruction', 7: 'large', 8: 'ratio', 9: 'complex', 10: 'pair', 11: 'string', 13: 'vector', 14: 'box', 99: 'other'}
HV = ['s8', 's16', 's32', 's64', 'u8', 'u16', 'u32', 'u64', 'f32', 'f64']
HVW = {t + 'vector': int(t[1:]) for t in HV}
KIND.update({20 + i: t + 'vector' for i, t in enumerate(HV)})

PAIRS = {40: 'closure', 41: 'continuation', 42: 'relative', 43: 'variadic', 44: 'absolute', 45: 'transformer', 46: 'macro', 47: 'senv', 50: 'error'}
KIND.update(PAIRS)
KIND.update({48: 'syntactic_closure', 49: 'syntax'})
PAIRLIKE = set(PAIRS.values())

NULL = 0x7fff << 48


class Registry:
    """primitive name -> the function that implements it, read from resolve()'s table"""

    def __init__(self, prog):
        self.prog = prog
        self.map = {}
        for m in prog.modules:
            for nm, f in m.funcs.items():
                if f.body is not None and (nm == 'resolve' or re.match(r'_Z(N6meevax6kernel)?7resolve', nm)):
                    self.scan(m, f)

    def scan(self, m, f):
        body = f.body if isinstance(f.body, list) else f.body.split('\n')
        lam = {}
        for nm in m.funcs:
            g = re.search(r'NK\d+(\$_\d+)cl', nm)
            if g and 'resolve' in nm and (g.group(1) not in lam or len(nm) < len(lam[g.group(1)])):
                lam[g.group(1)] = nm
        for ln in body:
            g = re.search(r'(?:call|invoke) void @("[^"]*"|[\w$.]+)\(ptr [^,]*, ptr [^,]*@([\w.]+), ptr [^,]*?(%[\w.]+|@"[^"]*"|@[\w$.]+)\)', ln)
            if not g or 'pair' not in g.group(1):
                continue
            s = self.string(m, g.group(2))
            if s is None:
                continue
            a = g.group(3)
            if a.startswith('@'):
                t = a[1:].strip('"')
            else:
                k = re.search(r'resolveEv?\d*?\d(\$_\d+)', g.group(1)) or re.search(r'resolve.*?(\$_\d+)', g.group(1))
                t = lam.get(k.group(1)) if k else None
            if t in m.funcs:
                self.map[s] = (m, t)

    def string(self, m, g):
        try:
            t, init, const, kind = m.global_def(g)
        except Exception:
            return None
        if init and init[0] == 'str':
            return bytes(init[1]).rstrip(b'\0').decode('utf-8', 'replace')
        return None

    def get(self, name):
        if name not in self.map:
            raise Unsupported('primitive %s not found in the table' % name)
        m, t = self.map[name]
        return m.funcs[t]


class World:
    def __init__(self, prog=None, tables=(), **kw):
        self.prog = prog or program()
        self.ex = Exec(self.prog, list(tables) + ext.BASE, **kw)
        self.st = State()
        if not hasattr(self.prog, 'registry'):
            self.prog.registry = Registry(self.prog)
        self.reg = self.prog.registry
        self.inputs = []      # (name, descriptor) for models

    # ------------------------------------------------ calling
    def fn(self, name):
        """a function by mangled or demangled name"""
        for m in self.prog.modules:
            f = m.funcs.get(name)
            if f is not None and f.body is not None:
                return f
        for n in self.prog.bydem.get(name, ()):
            for m in self.prog.modules:
                f = m.funcs.get(n)
                if f is not None and f.body is not None:
                    return f
        raise Unsupported('function %s not found' % name)

    def fnre(self, parts):
        rx = re.compile('^' + '.*'.join(re.escape(x) for x in parts) + '$')
        for n in self.prog.bydem:
            if rx.match(n):
                return self.fn(n)
        raise Unsupported('function %s not found' % (parts,))

    def run1(self, name, args, st=None):
        """run a deterministic helper in place; returns its value"""
        st = st or self.st
        outs = self.ex.call_fn(st, self.fn(name), args)
        if len(outs) != 1 or outs[0].kind != 'ret':
            raise Unsupported('helper %s: %s' % (name, outs[:3]))
        o = outs[0]
        if o.state is not st:
            adopt(st, o.state)
        return o.value

    def slot(self, w=None, st=None, name='slot'):
        st = st or self.st
        r = self.ex.alloc(st, 8, name, 'stack')
        if w is not None:
            self.ex.store(st, Ptr(r, 0), 8, w)
        return Ptr(r, 0)

    def ctor(self, name, *args):
        """construct an object through a harness constructor; returns its word"""
        s = self.slot()
        self.run1(name, [s] + list(args))
        return self.ex.load(self.st, s, 8)

    # ------------------------------------------------ inputs
    def small(self, name):
        b, i = smt.mk_int_bv(name, 32)
        w = z3.Concat(z3.BitVecVal(0x7ffa0000, 32), b)
        return Val('small', w, i=i, bv=b, name=name)

    def small_c(self, n):
        return Val('small', (0x7ffa << 48) | (n & 0xffffffff), i=z3.IntVal(n), bv=z3.BitVecVal(n, 32))

    def mpz(self, v):
        r = self.ex.alloc(self.st, 16, 'mpz', 'stack')
        ext.zinit((self.ex, self.st) and CX(self.ex, self.st), Ptr(r, 0), v)
        return Ptr(r, 0)

    def large(self, name, canonical=True):
        """a large integer; canonical: outside the 32-bit range"""
        i = smt.fresh_int(name)
        if canonical:
            smt.attach(i, z3.Or(i < -(1 << 31), i > (1 << 31) - 1))
        w = self.ctor('vf_large', self.mpz(i))
        return Val('large', w, i=i, name=name)

    def large_c(self, n):
        w = self.ctor('vf_large', self.mpz(n))
        return Val('large', w, i=z3.IntVal(n))

    def ratio(self, name):
        n, d = smt.fresh_int(name + '.n'), smt.fresh_int(name + '.d')
        smt.attach(d, d >= 2)
        smt.attach(n, ext.COPRIME(n, d))
        # lowest terms: a denominator greater than one never divides the numerator
        q, r = smt.tqr(n, d)
        smt.attach(n, r != 0, n != 0)
        ext.CANON[(n.get_id(), d.get_id())] = (n, d)
        w = self.ctor('vf_ratio', self.mpz(n), self.mpz(d))
        return Val('ratio', w, n=n, d=d, name=name)

    def double(self, name, nan=None):
        b = smt.fresh_bv(name, 64)
        # a boxed double is any pattern that is not one of the seven tags; NaN is canonical
        sig = z3.Extract(62, 48, b)
        self.st.assume(z3.Or(z3.ULT(sig, z3.BitVecVal(0x7ff9, 15))))
        e = z3.fpBVToFP(b, z3.Float64())
        self.st.assume(z3.Implies(z3.fpIsNaN(e), b == z3.BitVecVal(0x7ff8 << 48, 64)))
        return Val('double', b, bits=b, name=name)

    def float_(self, name):
        b = smt.fresh_bv(name, 32)
        return Val('float', z3.Concat(z3.BitVecVal(0x7ffb0000, 32), b), bits=b, name=name)

    def complex(self, re_, im):
        w = self.ctor('vf_complex', self.slot(re_.w), self.slot(im.w))
        return Val('complex', w, re=re_, im=im)

    def boolean(self, name):
        b = smt.fresh_bv(name, 1)
        return Val('bool', z3.Concat(z3.BitVecVal(0x7ff9 << 47, 63), b), b=b, name=name)

    def bool_c(self, v):
        return Val('bool', (0x7ff9 << 48) | int(v), b=int(v))

    def char(self, name, imm=False):
        """a character; make<character> puts it in an object of its own"""
        b = smt.fresh_bv(name, 32)
        if imm:
            return Val('char', z3.Concat(z3.BitVecVal(0x7ffc0000, 32), b), cp=b, name=name)
        return Val('char', self.ctor('vf_char', b), cp=b, name=name)

    def char_c(self, c):
        return Val('char', self.ctor('vf_char', c), cp=c)

    def null(self):
        return Val('null', NULL)

    def cons(self, a, d):
        w = self.ctor('vf_cons', self.slot(a.w), self.slot(d.w))
        return Val('pair', w, car=a, cdr=d)

    def list(self, xs, tail=None):
        r = tail or self.null()
        for x in reversed(xs):
            r = self.cons(x, r)
        return r

    def opaque(self, name):
        """an arbitrary object about which nothing is known except its identity"""
        r = self.ex.alloc(self.st, 40, name, 'opaque')
        return Val('opaque', (0x7ffe << 48) | (r << sym.SHIFT), name=name)

    def tail(self, name):
        """an arbitrary Scheme object given only by its identity, used as the tail of a list"""
        r = self.ex.alloc(self.st, 40, name, 'opaque')
        w = (0x7ffe << 48) | (r << sym.SHIFT)
        self.__dict__.setdefault('tails', set()).add(w)
        return Val('tail', w, name=name)

    def obj(self, ctor, *args):
        """an object of another type, made by the harness constructor vf_<ctor> from opaque parts"""
        w = self.ctor('vf_' + ctor, *[self.slot(a.w) if isinstance(a, Val) else a for a in args])
        return Val(ctor, w, parts=args)

    def string(self, chars):
        w = self.ctor('vf_string')
        s = self.slot(w)
        for c in chars:
            self.run1('vf_string_push', [s, c.cp])
        return Val('string', w, chars=chars)

    def vector(self, xs):
        w = self.ctor('vf_vector')
        s = self.slot(w)
        for x in xs:
            self.run1('vf_vector_push', [s, self.slot(x.w)])
        return Val('vector', w, items=xs)

    # ------------------------------------------------ calls
    def prim(self, name, args):
        """run primitive `name` on the list of args; [Outcome with .word]"""
        f = self.reg.get(name)
        xs = self.slot(self.list(args).w, name='args')
        ret = self.slot(name='result')
        f.parse()
        n = len(f.params)
        a = [ret, xs] if n == 2 else [ret, self.slot(0), xs]
        outs = self.ex.call_fn(self.st.clone(), f, a)
        for o in outs:
            if o.kind == 'ret':
                o.word = self.ex.load(o.state, ret, 8)
        return outs

    def call(self, dem, args):
        """run an object-returning C++ function f(object const&...)"""
        f = self.fn(dem) if isinstance(dem, str) else self.fnre(dem)
        ret = self.slot(name='result')
        f.parse()
        a = [self.slot(x.w) if isinstance(x, Val) else getattr(x, 'w', x) for x in args]
        sret = len(f.params) == len(a) + 1
        self.slots = a
        outs = self.ex.call_fn(self.st.clone(), f, ([ret] if sret else []) + a)
        for o in outs:
            if o.kind == 'ret':
                o.word = self.ex.load(o.state, ret, 8) if sret else o.value
                if isinstance(o.word, Ptr):
                    o.word = self.ex.load(o.state, o.word, 8)
        return outs

    # ------------------------------------------------ reading results
    def decode(self, st, w, depth=0):
        """[(state, Val)]: the Scheme datum denoted by word w"""
        s = self.slot(w, st)
        outs = self.ex.call_fn(st.clone(), self.fn('vf_kind'), [s])
        res = []
        for o in outs:
            if o.kind != 'ret':
                raise Unsupported('decode: %s' % o)
            res.append((o.state, self.decode1(o.state, s, w, KIND.get(o.value, 'other'))))
        return res

    def ref(self, fn, st, s, *a):
        return self.run1(fn, [s] + list(a), st)

    def decode1(self, st, s, w, k):
        ex = self.ex
        if k == 'null':
            return Val('null', w)
        if k == 'bool':
            b = simp(z3.Extract(0, 0, ex.bv(w, 64)))
            return Val('bool', w, b=b)
        if k == 'small':
            b = simp(z3.Extract(31, 0, ex.bv(w, 64)))
            return Val('small', w, i=smt.sint(ex.bv(b, 32)), bv=b)
        if k == 'float':
            return Val('float', w, bits=simp(z3.Extract(31, 0, ex.bv(w, 64))))
        if k == 'double':
            return Val('double', w, bits=w)
        if k == 'char':
            return Val('char', w, cp=self.ref('vf_char_code', st, s))
        if k == 'large':
            z = self.ref('vf_zref', st, s)
            return Val('large', w, i=ext.zload(CX(ex, st), z))
        if k == 'ratio':
            q = self.ref('vf_qref', st, s)
            n, d = ext.qload(CX(ex, st), q)
            return Val('ratio', w, n=n, d=d)
        if k == 'complex':
            a = ex.load(st, self.ref('vf_real', st, s), 8)
            b = ex.load(st, self.ref('vf_imag', st, s), 8)
            return Val('complex', w, re_w=a, im_w=b)
        if k == 'pair':
            a = ex.load(st, self.ref('vf_car', st, s), 8)
            b = ex.load(st, self.ref('vf_cdr', st, s), 8)
            return Val('pair', w, car_w=a, cdr_w=b)
        if k in PAIRLIKE:
            a = ex.load(st, self.ref('vf_car', st, s), 8)
            b = ex.load(st, self.ref('vf_cdr', st, s), 8)
            return Val(k, w, car_w=a, cdr_w=b)
        if k == 'instruction':
            return Val('instruction', w)
        if k == 'string':
            n = self.ref('vf_string_size', st, s)
            p = self.ref('vf_string_data', st, s)
            cs = [ex.load(st, Ptr(p.r, p.off + 4 * i), 4) for i in range(n)] if is_c(n) and n else []
            return Val('string', w, size=n, cps=cs)
        if k == 'vector':
            n = self.ref('vf_vector_size', st, s)
            p = self.ref('vf_vector_data', st, s)
            xs = [ex.load(st, Ptr(p.r, p.off + 8 * i), 8) for i in range(n)] if is_c(n) and n else []
            return Val('vector', w, size=n, words=xs)
        if k in HVW:
            n = self.ref('vf_%s_size' % k, st, s)
            p = self.ref('vf_%s_data' % k, st, s)
            b = HVW[k] // 8
            xs = [ex.load(st, Ptr(p.r, ex.add64(p.off, b * i)), b) for i in range(n)] if is_c(n) and n else []
            return Val(k, w, size=n, elems=xs)
        if k == 'box':
            return Val('box', w, car_w=ex.load(st, self.ref('vf_car', st, s), 8))
        return Val(k, w)


def adopt(st, o):
    if o is st:
        return
    st.__dict__.update(o.__dict__)
    o.own = object()


class CX:
    """minimal call context for using contract helpers outside a call"""

    def __init__(self, ex, st):
        self.ex = ex
        self.st = st


class Val:
    def __init__(self, kind, w, **kw):
        self.kind = kind
        self.w = w
        self.__dict__.update(kw)

    def __repr__(self):
        return 'Val(%s)' % self.kind
