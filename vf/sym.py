"""Symbolic executor for LLVM IR: the verification-condition generator.

Every path of a function is enumerated; a call is replaced by the callee's
contract when it has one (vf/ext.py for the trusted ones, contract modules for
the others) and executed otherwise.  Machine words are exact bit-vectors.
Anything not understood raises Unsupported -> the function is undecided.
"""
import math
import re
import struct
import z3
from . import ir, smt, flt, table
from .ir import Unsupported, I, PTR, VOID

SHIFT = 24   # region id << SHIFT is the region's address


class Ptr:
    __slots__ = ('r', 'off')

    def __init__(self, r, off=0):
        self.r = r
        self.off = off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.r, self.off)

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.r == o.r and isinstance(self.off, int) and isinstance(o.off, int) and self.off == o.off

    def __hash__(self):
        return hash((self.r, str(self.off)))


class FnPtr:
    __slots__ = ('name', 'mod', 'r')

    def __init__(self, name, mod, r):
        self.name = name
        self.mod = mod
        self.r = r

    def __repr__(self):
        return 'Fn(%s)' % self.name


class Region:
    __slots__ = ('id', 'size', 'cells', 'ghost', 'name', 'kind', 'alive', 'arr', 'const', 'owner', 'zero')

    def __init__(self, id, size, name, kind):
        self.id = id
        self.size = size
        self.cells = {}
        self.ghost = {}
        self.name = name
        self.kind = kind
        self.alive = True
        self.arr = None      # (element bytes, z3 array)
        self.const = False
        self.owner = None
        self.zero = False    # unwritten bytes are zero

    def clone(self, owner):
        r = Region(self.id, self.size, self.name, self.kind)
        r.cells = dict(self.cells)
        r.ghost = dict(self.ghost)
        r.alive = self.alive
        r.arr = self.arr
        r.const = self.const
        r.zero = self.zero
        r.owner = owner
        return r


class Frame:
    __slots__ = ('f', 'block', 'idx', 'regs', 'prev', 'ins', 'call', 'visits', 'onret')

    def __init__(self, f):
        self.f = f
        self.block = f.entry
        self.idx = 0
        self.regs = {}
        self.prev = None
        self.call = None     # the call instruction (in the caller) that created this frame
        self.visits = {}
        self.onret = None

    def clone(self):
        g = Frame.__new__(Frame)
        g.f = self.f
        g.block = self.block
        g.idx = self.idx
        g.regs = dict(self.regs)
        g.prev = self.prev
        g.call = self.call
        g.visits = dict(self.visits)
        g.onret = self.onret
        return g


class State:
    def __init__(self):
        self.own = object()
        self.regions = {}
        self.globals = {}
        self.pc = ()
        self.frames = []
        self.exc = None
        self.caught = []
        self.g = {}          # ghost state (immutable values)
        self.trace = ()
        self.steps = 0

    def clone(self):
        s = State.__new__(State)
        self.own = object()      # regions are shared from here on: both copy on write
        s.own = object()
        s.regions = dict(self.regions)
        s.globals = dict(self.globals)
        s.pc = self.pc
        s.frames = [f.clone() for f in self.frames]
        s.exc = self.exc
        s.caught = list(self.caught)
        s.g = dict(self.g)
        s.trace = self.trace
        s.steps = self.steps
        return s

    def reg(self, rid):
        """read access"""
        return self.regions[rid]

    def wreg(self, rid):
        r = self.regions[rid]
        if r.owner is not self.own:
            r = r.clone(self.own)
            self.regions[rid] = r
        return r

    def assume(self, c):
        if c is True or (not isinstance(c, bool) and z3.is_true(c)):
            return
        self.pc = self.pc + (c,)


class Outcome:
    def __init__(self, kind, state, value=None, note=''):
        self.kind = kind     # ret throw ub trap unreachable bound unsupported exit
        self.state = state
        self.value = value
        self.note = note

    def __repr__(self):
        return 'Outcome(%s,%s,%s)' % (self.kind, self.value, self.note)


class Branches(Exception):
    """raised/returned by a contract to fork: [(cond, thunk(state) -> value)]"""

    def __init__(self, alts):
        self.alts = alts


class Throw(Exception):
    def __init__(self, ti, ptr=None, note=''):
        self.ti = ti
        self.ptr = ptr
        self.note = note


class UB(Exception):
    def __init__(self, kind, note):
        self.kind = kind
        self.note = note


class NeedFork(Exception):
    """an operand needs a case split on cond (Bool)"""

    def __init__(self, cond):
        self.cond = cond


class Limit(Exception):
    pass


def is_c(v):
    return isinstance(v, int)


def mask(v, n):
    return v & ((1 << n) - 1)


def sgn(v, n):
    v &= (1 << n) - 1
    return v - (1 << n) if v >> (n - 1) else v


def simp(e):
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return 1
    if z3.is_false(e):
        return 0
    return e


class Exec:
    def __init__(self, prog, contracts=None, max_visits=64, max_steps=400000, max_paths=20000, deadline=None):
        self.prog = prog
        self.contracts = contracts if contracts is not None else []
        self.next_rid = 16
        self.max_visits = max_visits
        self.max_steps = max_steps
        self.max_paths = max_paths
        self.deadline = deadline
        self.ccache = {}
        self.fnregs = {}
        self.typeids = {}
        self.used_contracts = {}
        self.inlined = {}
        self.feas_timeout = 1.0
        self.paths = 0
        self.hook_block = None
        self.truncated = 0

    # ------------------------------------------------------------ memory
    def alloc(self, st, size, name, kind='heap', zero=False):
        rid = self.next_rid
        self.next_rid += 1
        r = Region(rid, size, name, kind)
        r.owner = st.own
        r.zero = zero
        st.regions[rid] = r
        return rid

    def addr(self, p):
        if isinstance(p, Ptr):
            b = p.r << SHIFT
            return b + p.off if is_c(p.off) else simp(z3.BitVecVal(b, 64) + p.off)
        if isinstance(p, FnPtr):
            return p.r << SHIFT
        return p

    def toptr(self, st, v):
        """64-bit value -> Ptr or int (null / invalid)"""
        if isinstance(v, (Ptr, FnPtr)):
            return v
        if is_c(v):
            rid = v >> SHIFT
            if rid in st.regions:
                return Ptr(rid, v & ((1 << SHIFT) - 1))
            if rid in self.fnregs:
                return self.fnregs[rid]
            return v
        v = simp(v)
        if is_c(v):
            return self.toptr(st, v)
        # const + symbolic
        if v.decl().kind() == z3.Z3_OP_BADD:
            base = 0
            rest = []
            for c in v.children():
                if z3.is_bv_value(c):
                    base += c.as_long()
                else:
                    rest.append(c)
            base &= (1 << 64) - 1
            for slack in (0, 1):
                rid = (base >> SHIFT) + slack
                if rid in st.regions:
                    off = z3.BitVecVal((base - (rid << SHIFT)) & ((1 << 64) - 1), 64)
                    for c in rest:
                        off = off + c
                    return Ptr(rid, simp(off))
        if v.decl().kind() == z3.Z3_OP_ITE:
            raise NeedFork(v.children()[0])
        h = st.g.get('ptr_hook')
        if h is not None:
            p = h(self, st, v)
            if p is not None:
                return p
        raise Unsupported('symbolic address %s' % str(v)[:120])

    def bytes_of(self, v, size):
        """list of byte values (little endian)"""
        if isinstance(v, (Ptr, FnPtr)):
            v = self.addr(v)
        if is_c(v):
            return [(v >> (8 * i)) & 255 for i in range(size)]
        if z3.is_bool(v):
            v = z3.If(v, z3.BitVecVal(1, 8 * size), z3.BitVecVal(0, 8 * size))
        if v.size() != 8 * size:
            v = z3.ZeroExt(8 * size - v.size(), v)
        return [simp(z3.Extract(8 * i + 7, 8 * i, v)) for i in range(size)]

    def split(self, r, off):
        """break the cell that strictly contains byte `off` so that a cell starts at off"""
        for o in range(off - 1, off - 16, -1):
            c = r.cells.get(o)
            if c is not None:
                sz, v = c
                if o + sz > off:
                    del r.cells[o]
                    for i, b in enumerate(self.bytes_of(v, sz)):
                        r.cells[o + i] = (1, b)
                return

    def store_cell(self, r, off, size, v):
        c = r.cells.get(off)
        if c is None or c[0] != size:
            self.split(r, off)
            self.split(r, off + size)
            for o in range(off, off + size):
                r.cells.pop(o, None)
        r.cells[off] = (size, v)
        if r.ghost:
            for o in list(r.ghost):
                if isinstance(o, int) and off <= o < off + size:
                    del r.ghost[o]

    def load_cell(self, st, r, off, size):
        c = r.cells.get(off)
        if c is not None and c[0] == size:
            return c[1]
        # assemble
        bs = []
        o = off
        while o < off + size:
            c = r.cells.get(o)
            if c is None:
                # inside a bigger cell?
                hit = False
                for q in range(o - 1, o - 16, -1):
                    d = r.cells.get(q)
                    if d is not None:
                        if q + d[0] > o:
                            bb = self.bytes_of(d[1], d[0])
                            while o < off + size and o < q + d[0]:
                                bs.append(bb[o - q])
                                o += 1
                            hit = True
                        break
                if not hit:
                    if r.zero:
                        bs.append(0)
                    else:
                        bs.append(self.undef_byte(st, r, o))
                    o += 1
            else:
                bb = self.bytes_of(c[1], c[0])
                for i, b in enumerate(bb):
                    if o < off + size:
                        bs.append(b)
                        o += 1
        if all(is_c(b) for b in bs):
            v = 0
            for i, b in enumerate(bs):
                v |= b << (8 * i)
            return v
        ex = [z3.BitVecVal(b, 8) if is_c(b) else b for b in reversed(bs)]
        return simp(z3.Concat(*ex)) if len(ex) > 1 else ex[0]

    def undef_byte(self, st, r, o):
        w = st.wreg(r.id) if st.regions.get(r.id) is r else r
        b = smt.fresh_bv('undef', 8)
        w.cells[o] = (1, b)
        return b

    def check_bounds(self, st, p, size, what):
        if not isinstance(p, Ptr):
            raise UB('ub', '%s through invalid pointer %s' % (what, p))
        r = st.reg(p.r)
        if not r.alive:
            raise UB('ub', '%s of freed object %s' % (what, r.name))
        if is_c(p.off):
            if is_c(r.size) and (p.off < 0 or p.off + size > r.size):
                raise UB('ub', '%s out of bounds of %s' % (what, r.name))
            if not is_c(r.size):
                ok = z3.ULE(z3.BitVecVal(p.off + size, 64), r.size)
                self.require(st, ok, '%s out of bounds of %s' % (what, r.name))
        else:
            rs = r.size if not is_c(r.size) else z3.BitVecVal(r.size, 64)
            ok = z3.And(z3.ULE(p.off, rs), z3.ULE(z3.BitVecVal(size, 64), rs - p.off))
            self.require(st, ok, '%s out of bounds of %s' % (what, r.name))
        return r

    def require(self, st, ok, note):
        """a safety condition: fork if it can fail"""
        v = simp(ok)
        if is_c(v):
            if not v:
                raise UB('ub', note)
            return
        if any(v.eq(c) for c in st.pc if not isinstance(c, bool)):
            return
        raise NeedCheck(v, note)

    def load(self, st, p, size):
        p = self.toptr(st, p)
        r = self.check_bounds(st, p, size, 'load')
        if r.kind == 'halt':
            raise UB('halt', 'reached the rest')
        if r.kind == 'lazy':
            f = st.g['lazy'][r.id]
            f(self, st, r.id, p.off, size)
            r = st.reg(p.r)
        if r.arr is not None:
            return self.arr_load(st, r, p.off, size)
        if not is_c(p.off):
            return self.sym_load(st, r, p.off, size)
        return self.load_cell(st, r, p.off, size)

    def sym_load(self, st, r, off, size):
        # finite region with symbolic offset: ite over aligned cells
        if is_c(r.size) and r.size <= 65536:
            cand = range(0, r.size - size + 1, size)
            vals = []
            for o in cand:
                vals.append((o, self.load_cell(st, r, o, size)))
                r = st.reg(r.id)
            if any(isinstance(v, (Ptr, FnPtr)) for _, v in vals):
                vals = [(o, self.addr(v)) for o, v in vals]
            e = None
            for o, v in reversed(vals):
                v = self.bv(v, 8 * size)
                e = v if e is None else z3.If(off == o, v, e)
            # alignment obligation
            if size > 1:
                self.require(st, z3.URem(off, z3.BitVecVal(size, 64)) == 0, 'misaligned symbolic load')
            return simp(e)
        raise Unsupported('symbolic offset load in %s' % r.name)

    def arr_index(self, st, off, es):
        if is_c(off):
            if off % es:
                raise Unsupported('unaligned array access')
            return z3.BitVecVal(off // es, 64)
        if es == 1:
            return off
        k = es.bit_length() - 1
        if (1 << k) != es:
            q = z3.simplify(z3.UDiv(off, z3.BitVecVal(es, 64)))
            return q
        low = simp(z3.Extract(k - 1, 0, off))
        if not (is_c(low) and low == 0):
            raise Unsupported('array alignment of %s' % str(off)[:80])
        # off == es*idx without wrap: off < size <= 2^47 is enforced by bounds
        return z3.simplify(z3.LShR(off, k))

    def arr_load(self, st, r, off, size):
        es, a = r.arr
        if size == es:
            return simp(z3.Select(a, self.arr_index(st, off, es)))
        if size > es and size % es == 0 and es in (1, 2, 4):
            parts = [z3.Select(a, self.arr_index(st, off, es) + i) for i in range(size // es)]
            return simp(z3.Concat(*reversed(parts)))
        if size < es and is_c(off):
            e = z3.Select(a, z3.BitVecVal(off // es, 64))
            b = off % es
            return simp(z3.Extract(8 * (b + size) - 1, 8 * b, e))
        raise Unsupported('array load size')

    def store(self, st, p, size, v):
        p = self.toptr(st, p)
        r = self.check_bounds(st, p, size, 'store')
        if r.const:
            raise UB('ub', 'store to constant %s' % r.name)
        w = st.wreg(p.r)
        if w.arr is not None:
            es, a = w.arr
            if size != es:
                raise Unsupported('array store size')
            w.arr = (es, z3.Store(a, self.arr_index(st, p.off, es), self.bv(v, 8 * es)))
            return
        if not is_c(p.off):
            if is_c(w.size) and w.size <= 4096:
                cand = range(0, w.size - size + 1, size)
                if size > 1:
                    self.require(st, z3.URem(p.off, z3.BitVecVal(size, 64)) == 0, 'misaligned symbolic store')
                nv = self.bv(v, 8 * size)
                for o in cand:
                    old = self.bv(self.load_cell(st, w, o, size), 8 * size)
                    w = st.wreg(p.r)
                    self.store_cell(w, o, size, simp(z3.If(p.off == o, nv, old)))
                return
            raise Unsupported('symbolic offset store in %s' % r.name)
        self.store_cell(w, p.off, size, v)

    def memcpy(self, st, d, s, n):
        d = self.toptr(st, d)
        s = self.toptr(st, s)
        if is_c(n) and n == 0:
            return
        if not is_c(n):
            h = st.g.get('memcpy_hook')
            if h is not None:
                if h(self, st, d, s, n):
                    return
            raise Unsupported('memcpy of symbolic size')
        rs = self.check_bounds(st, s, n, 'memcpy read')
        rd = self.check_bounds(st, d, n, 'memcpy write')
        if rs.kind == 'lazy':
            st.g['lazy'][rs.id](self, st, rs.id, s.off, n)
            rs = st.reg(s.r)
        if rs.arr is not None or rd.arr is not None or not is_c(s.off) or not is_c(d.off):
            es = rs.arr[0] if rs.arr is not None else (rd.arr[0] if rd.arr is not None else 8)
            if n % es == 0 and n // es <= 64:
                vals = [self.load(st, Ptr(s.r, self.add64(s.off, i * es)), es) for i in range(n // es)]
                for i, v in enumerate(vals):
                    self.store(st, Ptr(d.r, self.add64(d.off, i * es)), es, v)
                return
            raise Unsupported('memcpy array')
        if rd.const:
            raise UB('ub', 'write to constant')
        w = st.wreg(s.r)
        self.split(w, s.off)
        self.split(w, s.off + n)
        items = [(o - s.off, c) for o, c in w.cells.items() if s.off <= o < s.off + n]
        gh = [(o - s.off, c) for o, c in w.ghost.items() if isinstance(o, int) and s.off <= o < s.off + n]
        if w.zero:
            covered = set()
            for o, (sz, v) in items:
                covered.update(range(o, o + sz))
            items += [(o, (1, 0)) for o in range(n) if o not in covered]
        t = st.wreg(d.r)
        self.split(t, d.off)
        self.split(t, d.off + n)
        for o in range(d.off, d.off + n):
            t.cells.pop(o, None)
            t.ghost.pop(o, None)
        for o, c in items:
            t.cells[d.off + o] = c
        for o, c in gh:
            t.ghost[d.off + o] = c

    def add64(self, a, b):
        if is_c(a) and is_c(b):
            return a + b
        return simp(self.bv(a, 64) + self.bv(b, 64))

    def memset(self, st, d, b, n):
        d = self.toptr(st, d)
        if not is_c(n):
            raise Unsupported('memset symbolic')
        if n == 0:
            return
        r = self.check_bounds(st, d, n, 'memset')
        w = st.wreg(d.r)
        if w.arr is not None or not is_c(d.off):
            raise Unsupported('memset array')
        if not is_c(b):
            b = simp(z3.Extract(7, 0, b)) if b.size() > 8 else b
        else:
            b &= 255
        self.split(w, d.off)
        self.split(w, d.off + n)
        for o in range(d.off, d.off + n):
            w.cells.pop(o, None)
            w.ghost.pop(o, None)
        if is_c(b):
            o = d.off
            while o + 8 <= d.off + n:
                w.cells[o] = (8, b * 0x0101010101010101)
                o += 8
            while o < d.off + n:
                w.cells[o] = (1, b)
                o += 1
        else:
            for o in range(d.off, d.off + n):
                w.cells[o] = (1, b)

    # ------------------------------------------------------------ values
    def bv(self, v, n):
        if is_c(v):
            return z3.BitVecVal(v, n)
        if isinstance(v, (Ptr, FnPtr)):
            return self.bv(self.addr(v), n)
        if z3.is_bool(v):
            return z3.If(v, z3.BitVecVal(1, n), z3.BitVecVal(0, n))
        if v.size() == n:
            return v
        if v.size() < n:
            return z3.ZeroExt(n - v.size(), v)
        return z3.Extract(n - 1, 0, v)

    def boolean(self, v):
        if is_c(v):
            return bool(v & 1)
        if z3.is_bool(v):
            return v
        return simp_bool(z3.Extract(0, 0, v) == 1)

    def glob_key(self, mod, name):
        if mod.is_internal(name):
            return (mod.key, name)
        return name

    def glob_ptr(self, st, mod, name):
        f = mod.funcs.get(name)
        if f is not None or name in self.prog.ext:
            key = (mod.key, name) if (f is not None and f.body is not None and mod.is_internal(name)) else name
            for r, fp in self.fnregs.items():
                if fp.key == key:
                    return fp
            rid = self.next_rid
            self.next_rid += 1
            fp = FnPtrK(name, mod, rid, key)
            self.fnregs[rid] = fp
            return fp
        key = self.glob_key(mod, name)
        rid = st.globals.get(key)
        if rid is not None:
            return Ptr(rid, 0)
        m = mod
        if not mod.is_internal(name):
            m2 = self.prog.gext.get(name)
            if m2 is not None:
                m = m2
        if name not in m.globals:
            raise Unsupported('unknown global %s' % name)
        t, init, const, kind = m.global_def(name)
        if kind == 'alias':
            return self.const(st, m, PTR, init)
        try:
            size = m.sizeof(t)
        except Unsupported:
            size = 1 << 16
        rid = self.alloc(st, size, '@' + name, 'global')
        st.globals[key] = rid
        r = st.wreg(rid)
        if init is None:
            r.kind = 'extern'
            h = self.extern_global(st, rid, name)
            return Ptr(rid, 0)
        r.zero = True
        self.init_const(st, m, rid, 0, t, init)
        r = st.wreg(rid)
        if const:
            r.const = True
        else:
            self.dynamic_init(st, m, name)
        return Ptr(rid, 0)

    def extern_global(self, st, rid, name):
        st.wreg(rid).size = 1 << 16

    def dynamic_init(self, st, m, name):
        idx = getattr(m, '_dyninit', None)
        if idx is None:
            idx = []
            for nm, f in m.funcs.items():
                if f.body is not None and nm.startswith('__cxx_global_var_init'):
                    idx.append((nm, f, '\n'.join(f.body) if isinstance(f.body, list) else ''))
            m._dyninit = idx
        pat = re.compile(r'@' + re.escape(name) + r'(?![-a-zA-Z$._0-9])')
        pat2 = re.compile(r'@"' + re.escape(name) + r'"')
        for nm, f, txt in idx:
            if pat.search(txt) or pat2.search(txt):
                # only when it is the object being constructed: first argument / store target
                st.g['init_' + nm] = True
                outs = self.call_fn(st, f, [])
                if len(outs) != 1 or outs[0].kind != 'ret':
                    raise Unsupported('dynamic initialiser %s' % nm)
                o = outs[0].state
                if o is not st:
                    st.__dict__.update(o.__dict__)
                    for r in st.regions.values():
                        if r.owner is o:
                            r.owner = st.own
                break

    def init_const(self, st, m, rid, off, t, c):
        t = m.resolve(t)
        k = c[0]
        if k in ('zero',):
            return
        if k == 'undef':
            return
        if k == 'str':
            w = st.wreg(rid)
            for i, b in enumerate(c[1]):
                w.cells[off + i] = (1, b)
            return
        if k == 'agg':
            if t[0] == 'arr':
                s = m.sizeof(t[2])
                for i, (et, ev) in enumerate(c[1]):
                    self.init_const(st, m, rid, off + i * s, et, ev)
            else:
                offs = m.layout(t)[2]
                for i, (et, ev) in enumerate(c[1]):
                    self.init_const(st, m, rid, off + offs[i], et, ev)
            return
        v = self.const(st, m, t, c)
        s = m.sizeof(t)
        self.store_cell(st.wreg(rid), off, s, v)

    def const(self, st, m, t, c):
        k = c[0]
        if k == 'int':
            return mask(c[1], m.resolve(t)[1]) if m.resolve(t)[0] == 'i' else c[1]
        if k == 'null':
            return 0
        if k == 'glob':
            return self.glob_ptr(st, m, c[1])
        if k == 'fplit':
            s = c[1]
            if s.startswith('0x') and s[2] not in 'KLMHR':
                d = int(s, 16)
                if t[0] == 'float':
                    return struct.unpack('<I', struct.pack('<f', struct.unpack('<d', struct.pack('<Q', d))[0]))[0]
                return d
            if s.startswith('0x'):
                if t[0] == 'x86_fp80':
                    return ('f80', s)
                raise Unsupported('fp literal %s' % s)
            d = float(s)
            if t[0] == 'float':
                return struct.unpack('<I', struct.pack('<f', d))[0]
            return struct.unpack('<Q', struct.pack('<d', d))[0]
        if k == 'fp':
            d = c[1]
            if t[0] == 'float':
                return struct.unpack('<I', struct.pack('<f', d))[0]
            return struct.unpack('<Q', struct.pack('<d', d))[0]
        if k == 'undef':
            t = m.resolve(t)
            if t[0] == 'struct':
                return [self.const(st, m, f, c) for f in t[1]]
            if t[0] == 'arr':
                return [self.const(st, m, t[2], c) for _ in range(t[1])]
            return 0
        if k == 'zero':
            t = m.resolve(t)
            if t[0] == 'struct':
                return [self.const(st, m, f, c) for f in t[1]]
            if t[0] == 'arr':
                return [self.const(st, m, t[2], c) for _ in range(t[1])]
            return 0
        if k == 'agg':
            t = m.resolve(t)
            return [self.const(st, m, et, ev) for et, ev in c[1]]
        if k == 'ce':
            op = c[1]
            if op == 'gep':
                bt, ops = c[2], c[3]
                base = self.const(st, m, ops[0][0], ops[0][1])
                return self.gep(st, m, bt, base, [(tt, self.const(st, m, tt, vv)) for tt, vv in ops[1:]])
            if op in ('bitcast', 'addrspacecast'):
                return self.const(st, m, c[2][0], c[2][1])
            if op == 'ptrtoint':
                v = self.addr(self.const(st, m, c[2][0], c[2][1]))
                return mask(v, m.resolve(c[3])[1]) if is_c(v) else v
            if op == 'inttoptr':
                return self.toptr(st, self.const(st, m, c[2][0], c[2][1]))
            if op in ('add', 'sub', 'and', 'or', 'xor', 'mul', 'shl', 'lshr', 'ashr'):
                a = self.const(st, m, c[2][0], c[2][1])
                b = self.const(st, m, c[3][0], c[3][1])
                return self.binop(st, op, c[2][0], a, b)
            if op in ('trunc', 'zext', 'sext'):
                a = self.const(st, m, c[2][0], c[2][1])
                return self.cast(st, op, m.resolve(c[2][0]), m.resolve(c[3]), a)
            if op == 'icmp':
                a = self.const(st, m, c[3][0], c[3][1])
                b = self.const(st, m, c[4][0], c[4][1])
                return self.icmp(st, c[2], m.resolve(c[3][0]), a, b)
        if k == 'meta':
            return None
        raise Unsupported('constant %r' % (c,))

    def val(self, st, fr, t, v):
        if v[0] == 'reg':
            return fr.regs[v[1]]
        return self.const(st, fr.f.mod, t, v)

    def gep(self, st, m, bt, base, idx):
        base = self.toptr(st, base)
        if isinstance(base, FnPtr):
            raise Unsupported('gep on function')
        off = base.off if isinstance(base, Ptr) else base
        t = bt
        first = True
        for it, iv in idx:
            if first:
                s = m.sizeof(t)
                off = self.gep_add(off, it, iv, s, m)
                first = False
                continue
            rt = m.resolve(t)
            if rt[0] == 'struct':
                off = self.add64(off, m.layout(rt)[2][iv])
                t = rt[1][iv]
            elif rt[0] in ('arr', 'vec'):
                t = rt[2]
                off = self.gep_add(off, it, iv, m.sizeof(t), m)
            else:
                raise Unsupported('gep into %r' % (rt,))
        if isinstance(base, Ptr):
            if is_c(off):
                if off >= 1 << 63:
                    off -= 1 << 64
            return Ptr(base.r, off)
        if is_c(off):
            return self.toptr(st, off & ((1 << 64) - 1))
        return off

    def gep_add(self, off, it, iv, s, m):
        n = m.resolve(it)[1]
        if is_c(iv):
            d = sgn(iv, n) * s
            if is_c(off):
                return off + d
            return simp(off + z3.BitVecVal(d, 64))
        if isinstance(iv, Ptr):
            iv = self.addr(iv)
        iv = self.bv(iv, n)
        if n < 64:
            iv = z3.SignExt(64 - n, iv)
        return simp(self.bv(off, 64) + iv * z3.BitVecVal(s, 64))

    # ------------------------------------------------------------ ops
    def binop(self, st, op, t, a, b):
        if t[0] in ('double', 'float'):
            return self.fbin(op, t, a, b)
        if t[0] != 'i':
            raise Unsupported('binop on %r' % (t,))
        n = t[1]
        if n == 1 and not (is_c(a) and is_c(b)):
            x, y = self.boolean(a), self.boolean(b)
            if op == 'xor' or op == 'add' or op == 'sub':
                return simp(z3.Xor(B(x), B(y)))
            if op == 'and' or op == 'mul':
                return simp(z3.And(B(x), B(y)))
            if op == 'or':
                return simp(z3.Or(B(x), B(y)))
            raise Unsupported('i1 ' + op)
        # pointer differences stay symbolic-friendly
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r:
            a, b = a.off, b.off
            if is_c(a) and is_c(b):
                return (a - b) & ((1 << n) - 1)
        if op == 'sub' and (isinstance(a, IntPtr) or isinstance(b, IntPtr)):
            pass
        a = self.addr(a)
        b = self.addr(b)
        if is_c(a) and is_c(b):
            M = (1 << n) - 1
            if op == 'add':
                return (a + b) & M
            if op == 'sub':
                return (a - b) & M
            if op == 'mul':
                return (a * b) & M
            if op == 'and':
                return a & b & M
            if op == 'or':
                return (a | b) & M
            if op == 'xor':
                return (a ^ b) & M
            if op == 'shl':
                if b >= n:
                    raise UB('ub', 'shift amount')
                return (a << b) & M
            if op == 'lshr':
                if b >= n:
                    raise UB('ub', 'shift amount')
                return (a & M) >> b
            if op == 'ashr':
                if b >= n:
                    raise UB('ub', 'shift amount')
                return (sgn(a, n) >> b) & M
            if b == 0:
                raise UB('trap', 'integer division by zero')
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            x, y = sgn(a, n), sgn(b, n)
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            if op == 'sdiv':
                if q == 1 << (n - 1):
                    raise UB('trap', 'signed division overflow')
                return q & M
            if op == 'srem':
                if y == -1 and x == -(1 << (n - 1)):
                    raise UB('trap', 'signed remainder overflow')
                return (x - q * y) & M
        A, Bv = self.bv(a, n), self.bv(b, n)
        if op == 'add':
            r = A + Bv
        elif op == 'sub':
            r = A - Bv
        elif op == 'mul':
            r = A * Bv
        elif op == 'and':
            r = self.bvand(A, Bv, n)
        elif op == 'or':
            r = self.bvor(A, Bv, n)
        elif op == 'xor':
            r = A ^ Bv
        elif op in ('shl', 'lshr', 'ashr'):
            self.require(st, z3.ULT(Bv, z3.BitVecVal(n, n)), 'shift amount out of range')
            r = A << Bv if op == 'shl' else (z3.LShR(A, Bv) if op == 'lshr' else A >> Bv)
        else:
            self.require_trap(st, Bv != 0, 'integer division by zero')
            if op == 'udiv':
                r = z3.UDiv(A, Bv)
            elif op == 'urem':
                r = z3.URem(A, Bv)
            else:
                self.require_trap(st, z3.Not(z3.And(A == z3.BitVecVal(1 << (n - 1), n), Bv == z3.BitVecVal((1 << n) - 1, n))), 'signed division overflow')
                r = A / Bv if op == 'sdiv' else z3.SRem(A, Bv)
        return simp(r)

    def require_trap(self, st, ok, note):
        v = simp(ok)
        if is_c(v):
            if not v:
                raise UB('trap', note)
            return
        if any(v.eq(c) for c in st.pc if not isinstance(c, bool)):
            return
        raise NeedCheck(v, note, 'trap')

    def bvand(self, A, Bv, n):
        # mask with contiguous constant: keep as extract/concat so that NaN-boxing folds
        for x, y in ((A, Bv), (Bv, A)):
            if z3.is_bv_value(y):
                m = y.as_long()
                if m == 0:
                    return z3.BitVecVal(0, n)
                lo = (m & -m).bit_length() - 1
                hi = m.bit_length() - 1
                if m == ((1 << (hi + 1)) - 1) ^ ((1 << lo) - 1):
                    parts = []
                    if hi < n - 1:
                        parts.append(z3.BitVecVal(0, n - 1 - hi))
                    parts.append(z3.Extract(hi, lo, x))
                    if lo > 0:
                        parts.append(z3.BitVecVal(0, lo))
                    return z3.Concat(*parts) if len(parts) > 1 else parts[0]
        # (c ? 1 : 0) & x
        for x, y in ((A, Bv), (Bv, A)):
            y = z3.simplify(y)
            if z3.is_app_of(y, z3.Z3_OP_ITE) and all(z3.is_bv_value(k) and k.as_long() in (0, 1) for k in y.children()[1:]):
                return z3.If(y.arg(0), self.bvand(x, y.arg(1), n), self.bvand(x, y.arg(2), n))
        return A & Bv

    def bvor(self, A, Bv, n):
        # or of a constant with something whose overlapping bits are constant zero
        for x, y in ((A, Bv), (Bv, A)):
            if z3.is_bv_value(y):
                m = y.as_long()
                if m == 0:
                    return x
                lo = (m & -m).bit_length() - 1
                if lo == 0:
                    break
                top = simp(z3.Extract(n - 1, lo, x))
                if is_c(top):
                    return z3.Concat(z3.BitVecVal(top | (m >> lo), n - lo), z3.Extract(lo - 1, 0, x))
        return A | Bv

    def cast(self, st, op, t, t2, v):
        if op == 'bitcast':
            return v
        if op == 'ptrtoint':
            n = t2[1]
            if isinstance(v, (Ptr, FnPtr)):
                if n == 64:
                    return v     # keep provenance; converted on arithmetic
                v = self.addr(v)
            return mask(v, n) if is_c(v) else self.bv(v, n)
        if op == 'inttoptr':
            return self.toptr(st, v)
        if op == 'trunc':
            n = t2[1]
            v = self.addr(v)
            if is_c(v):
                return mask(v, n)
            if n == 1:
                return simp(z3.Extract(0, 0, v) == 1)
            return simp(z3.Extract(n - 1, 0, v))
        if op in ('zext', 'sext'):
            n = t2[1]
            m = t[1]
            if is_c(v):
                return mask(sgn(v, m) if op == 'sext' else v, n)
            if z3.is_bool(v):
                one = 1 if op == 'zext' else (1 << n) - 1
                return simp(z3.If(v, z3.BitVecVal(one, n), z3.BitVecVal(0, n)))
            return simp(z3.ZeroExt(n - m, v) if op == 'zext' else z3.SignExt(n - m, v))
        return self.fcast(op, t, t2, v)

    def icmp(self, st, pred, t, a, b):
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            if pred in ('eq', 'ne'):
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r != b.r:
                    return int(pred == 'ne')
                if isinstance(a, Ptr) and isinstance(b, Ptr):
                    if is_c(a.off) and is_c(b.off):
                        return int((a.off == b.off) == (pred == 'eq'))
                    e = self.bv(a.off, 64) == self.bv(b.off, 64)
                    return simp(e if pred == 'eq' else z3.Not(e))
            elif isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r:
                a, b = a.off, b.off
                t = I(64)
                if is_c(a):
                    a &= (1 << 64) - 1
                if is_c(b):
                    b &= (1 << 64) - 1
            a = self.addr(a)
            b = self.addr(b)
            t = I(64)
        n = 64 if t[0] == 'ptr' else t[1]
        if is_c(a) and is_c(b):
            a &= (1 << n) - 1
            b &= (1 << n) - 1
            if pred[0] == 's':
                a, b = sgn(a, n), sgn(b, n)
            return int({'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b,
                        'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b}[pred])
        if n == 1:
            x, y = B(self.boolean(a)), B(self.boolean(b))
            if pred == 'eq':
                return simp(x == y)
            if pred == 'ne':
                return simp(z3.Xor(x, y))
            raise Unsupported('icmp i1 ' + pred)
        A, Bv = self.bv(a, n), self.bv(b, n)
        r = {'eq': lambda: A == Bv, 'ne': lambda: A != Bv, 'ult': lambda: z3.ULT(A, Bv), 'ule': lambda: z3.ULE(A, Bv),
             'ugt': lambda: z3.UGT(A, Bv), 'uge': lambda: z3.UGE(A, Bv), 'slt': lambda: A < Bv, 'sle': lambda: A <= Bv,
             'sgt': lambda: A > Bv, 'sge': lambda: A >= Bv}[pred]()
        return simp(r)

    # ---- floating point (bits <-> FP)
    def fsort(self, t):
        return z3.Float64() if t[0] == 'double' else z3.Float32()

    def fp(self, t, v):
        n = 64 if t[0] == 'double' else 32
        return z3.fpBVToFP(self.bv(v, n), self.fsort(t))

    def pyf(self, t, v):
        return struct.unpack('<d', struct.pack('<Q', v))[0] if t[0] == 'double' else struct.unpack('<f', struct.pack('<I', v))[0]

    def fbits(self, t, d):
        try:
            return struct.unpack('<Q', struct.pack('<d', d))[0] if t[0] == 'double' else struct.unpack('<I', struct.pack('<f', d))[0]
        except OverflowError:
            return 0x7f800000 if d > 0 else 0xff800000

    def fpresult(self, t, e):
        e = z3.simplify(e)
        return simp(z3.fpToIEEEBV(e))

    def fbin(self, op, t, a, b):
        rm = z3.RNE()
        if is_c(a) and is_c(b) and t[0] == 'double' and op in ('fadd', 'fsub', 'fmul'):
            x, y = self.pyf(t, a), self.pyf(t, b)
            return self.fbits(t, {'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y}[op]())
        if t[0] == 'double' and op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            return simp({'fadd': flt.add, 'fsub': flt.sub, 'fmul': flt.mul, 'fdiv': flt.div}[op](self.bv(a, 64), self.bv(b, 64)))
        x, y = self.fp(t, a), self.fp(t, b)
        r = {'fadd': lambda: z3.fpAdd(rm, x, y), 'fsub': lambda: z3.fpSub(rm, x, y), 'fmul': lambda: z3.fpMul(rm, x, y),
             'fdiv': lambda: z3.fpDiv(rm, x, y)}
        if op not in r:
            raise Unsupported(op)
        return self.fpresult(t, r[op]())

    def fcmp(self, pred, t, a, b):
        if t[0] not in ('double', 'float'):
            raise Unsupported('fcmp %r' % (t,))
        x, y = self.fp(t, a), self.fp(t, b)
        un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
        base = {'eq': lambda: z3.fpEQ(x, y), 'gt': lambda: z3.fpGT(x, y), 'ge': lambda: z3.fpGEQ(x, y), 'lt': lambda: z3.fpLT(x, y),
                'le': lambda: z3.fpLEQ(x, y), 'ne': lambda: z3.Not(z3.fpEQ(x, y))}
        if pred == 'ord':
            return simp(z3.Not(un))
        if pred == 'uno':
            return simp(un)
        if pred == 'false':
            return 0
        if pred == 'true':
            return 1
        r = base[pred[1:]]()
        if pred[0] == 'o':
            r = z3.And(z3.Not(un), r)
        else:
            r = z3.Or(un, r)
        return simp(r)

    def fcast(self, op, t, t2, v):
        rm = z3.RNE()
        if 'x86_fp80' in (t[0], t2[0]):
            raise Unsupported('long double')
        if op == 'sitofp':
            if is_c(v):
                return self.fbits(t2, float(sgn(v, t[1])))
            if t2[0] == 'double' and t[1] <= 64:
                return simp(flt.of_int(self.bv(v, t[1])))
            return self.fpresult(t2, z3.fpSignedToFP(rm, self.bv(v, t[1]), self.fsort(t2)))
        if op == 'uitofp':
            if is_c(v):
                return self.fbits(t2, float(v))
            return self.fpresult(t2, z3.fpUnsignedToFP(rm, self.bv(v, t[1]), self.fsort(t2)))
        if op in ('fpext', 'fptrunc'):
            return self.fpresult(t2, z3.fpFPToFP(rm, self.fp(t, v), self.fsort(t2)))
        if op == 'fptosi':
            return simp(z3.fpToSBV(z3.RTZ(), self.fp(t, v), z3.BitVecSort(t2[1])))
        if op == 'fptoui':
            return simp(z3.fpToUBV(z3.RTZ(), self.fp(t, v), z3.BitVecSort(t2[1])))
        raise Unsupported('cast ' + op)

    # ------------------------------------------------------------ control
    def feasible(self, st, c):
        """can c hold on this path?"""
        if isinstance(c, bool):
            return c
        r = smt.check(list(st.pc) + [c], timeout=self.feas_timeout, use_cvc5=False)
        return r.status != smt.UNSAT

    def call_fn(self, st, f, args):
        """run f to completion from st; returns outcomes (frames restored to the depth at entry)"""
        f.parse()
        base = len(st.frames)
        self.push(st, f, args, None)
        return self.run([st], base)

    def push(self, st, f, args, call):
        f.parse()
        if f.body is None:
            raise Unsupported('no body: %s' % self.prog.dem.get(f.name, f.name))
        fr = Frame(f)
        fr.call = call
        for (t, nm), v in zip(f.params, args):
            fr.regs[nm] = v
        st.frames.append(fr)
        if len(st.frames) > 120:
            raise Limit('call depth')
        self.inlined[f.name] = self.inlined.get(f.name, 0) + 1

    def run(self, work, base):
        outs = []
        while work:
            st = work.pop()
            try:
                self.step_until(st, base, work, outs)
            except Unsupported as e:
                outs.append(Outcome('unsupported', st, note='%s [in %s]' % (e, self.where(st))))
            except Limit as e:
                outs.append(Outcome('bound', st, note='%s [in %s]' % (e, self.where(st))))
            if len(outs) + len(work) > self.max_paths:
                outs.append(Outcome('bound', st, note='path limit'))
                break
        return outs

    def where(self, st):
        return ' < '.join(self.prog.dem.get(f.f.name, f.f.name)[:90] for f in reversed(st.frames[-3:]))

    def step_until(self, st, base, work, outs):
        import time
        while True:
            fr = st.frames[-1]
            code = fr.f.instrs(fr.block)
            ins = code[fr.idx]
            st.steps += 1
            if st.steps > self.max_steps:
                raise Limit('step limit')
            if self.deadline and st.steps % 256 == 0 and time.time() > self.deadline:
                raise Limit('time limit')
            try:
                r = self.step(st, fr, ins, work, outs, base)
            except NeedFork as nf:
                if not self.fork_on(st, nf.cond, work):
                    return
                continue
            except NeedCheck as nc:
                if self.feasible(st, z3.Not(nc.cond)):
                    bad = st.clone()
                    bad.assume(z3.Not(nc.cond))
                    outs.append(Outcome(nc.kind, bad, note=nc.note + ' [in %s]' % self.where(st)))
                    if not self.feasible(st, nc.cond):
                        return
                st.assume(nc.cond)
                continue
            except UB as u:
                outs.append(Outcome(u.kind, st, note=u.note + ' [in %s]' % self.where(st)))
                return
            except Branches as br:
                alive = []
                for cond, thunk in br.alts:
                    if cond is True or self.feasible(st, cond):
                        alive.append((cond, thunk))
                if not alive:
                    return
                for cond, thunk in alive[1:]:
                    s2 = st.clone()
                    s2.assume(cond)
                    s2.g['$alt'] = (id(ins), thunk)
                    work.append(s2)
                st.assume(alive[0][0])
                st.g['$alt'] = (id(ins), alive[0][1])
                continue
            except Throw as t:
                if not self.throw(st, t, base, outs):
                    return
                continue
            if r == 'done':
                return

    def fork_on(self, st, cond, work):
        """case split: continue st with cond, push the negation"""
        a = self.feasible(st, cond)
        b = self.feasible(st, z3.Not(cond))
        if a and b:
            s2 = st.clone()
            s2.assume(z3.Not(cond))
            s2.g['$forced'] = s2.g.get('$forced', ()) + ((cond, False),)
            work.append(s2)
            st.assume(cond)
            return True
        if a:
            st.assume(cond)
            return True
        if b:
            st.assume(z3.Not(cond))
            return True
        return False

    def decide(self, st, c):
        """value of c on this path if it is syntactically known"""
        if c is True or c is False:
            return c
        for d in st.pc:
            if d is True:
                continue
            if d.eq(c):
                return True
        n = z3.simplify(z3.Not(c))
        for d in st.pc:
            if d.eq(n) or z3.simplify(d).eq(n):
                return False
        return None

    def goto(self, st, fr, lab):
        fr.prev = fr.block
        fr.block = lab
        fr.idx = 0
        n = fr.visits.get(lab, 0) + 1
        fr.visits[lab] = n
        if n > self.max_visits:
            raise Limit('loop bound %d at %s' % (self.max_visits, lab))
        # phis
        code = fr.f.instrs(lab)
        vals = []
        k = 0
        while k < len(code) and code[k].op == 'phi':
            ins = code[k]
            for l, v in ins.a[0]:
                if l == fr.prev:
                    vals.append((ins.dst, self.val(st, fr, ins.ty, v)))
                    break
            else:
                raise Unsupported('phi')
            k += 1
        for d, v in vals:
            fr.regs[d] = v
        fr.idx = k
        if self.hook_block is not None:
            self.hook_block(self, st, fr, lab)

    def big_switch(self, st, fr, v, tg, default, work):
        """a table written as a switch: cases that do the same are one case"""
        gr = table.groups(fr.f, list(tg))
        by = {}
        for l, cs in tg.items():
            by.setdefault(gr[l], []).append(l)
        alts = []
        allc = []
        for k, ls in by.items():
            cs = [c for l in ls for c in tg[l]]
            allc += cs
            alts.append((table.member(v, cs), ls, k))
        alts.append((z3.Not(table.member(v, allc)), [default], ('own', default)))
        alive = [a for a in alts if self.feasible(st, a[0])]
        if not alive:
            return 'done'
        for i, (c, ls, k) in enumerate(alive):
            s2 = st.clone() if i + 1 < len(alive) else st
            s2.assume(c)
            f2 = s2.frames[-1]
            if k[0] == 'br' and len(ls) > 1:
                self.goto_table(s2, f2, v, ls, tg, k[1])
            else:
                self.goto(s2, f2, ls[0])
            if s2 is not st:
                work.append(s2)

    def goto_table(self, st, fr, v, ls, tg, lab):
        code = fr.f.instrs(lab)
        want = set(ls)
        vals = []
        k = 0
        while k < len(code) and code[k].op == 'phi':
            ins = code[k]
            t = fr.f.mod.resolve(ins.ty)
            d = {}
            seen = set()
            for l, x in ins.a[0]:
                if l in want and l not in seen:
                    seen.add(l)
                    c = self.val(st, fr, ins.ty, x)
                    if t[0] != 'i' or not is_c(c):
                        raise Unsupported('table switch')
                    for cs in tg[l]:
                        d[cs] = c
            vals.append((ins.dst, simp(table.lookup(v, d, t[1]))))
            k += 1
        self.goto_prev(fr, ls[0], lab)
        for d, x in vals:
            fr.regs[d] = x
        fr.idx = k

    def goto_prev(self, fr, prev, lab):
        fr.prev = prev
        fr.block = lab
        fr.visits[lab] = fr.visits.get(lab, 0) + 1

    def step(self, st, fr, ins, work, outs, base):
        op = ins.op
        regs = fr.regs
        m = fr.f.mod
        if op == 'bin':
            t = m.resolve(ins.ty)
            o, a, b = ins.a
            regs[ins.dst] = self.binop(st, o, t, self.val(st, fr, t, a), self.val(st, fr, t, b))
            fr.idx += 1
        elif op == 'load':
            t = m.resolve(ins.ty)
            p = self.val(st, fr, PTR, ins.a[0])
            if t[0] in ('struct', 'arr'):
                regs[ins.dst] = self.load_agg(st, m, t, self.toptr(st, p))
            else:
                v = self.load(st, p, m.sizeof(t))
                regs[ins.dst] = self.typed(st, t, v)
            fr.idx += 1
        elif op == 'store':
            t = m.resolve(ins.ty)
            v = self.val(st, fr, t, ins.a[0])
            p = self.val(st, fr, PTR, ins.a[1])
            if t[0] in ('struct', 'arr'):
                self.store_agg(st, m, t, self.toptr(st, p), v)
            else:
                if t == ('i', 1):
                    v = self.cast(st, 'zext', t, I(8), v)
                if isinstance(v, tuple):
                    raise Unsupported('store %r' % (v,))
                self.store(st, p, m.sizeof(t), v)
            fr.idx += 1
        elif op == 'gep':
            bt, ops = ins.a
            b = self.val(st, fr, PTR, ops[0][1])
            regs[ins.dst] = self.gep(st, m, bt, b, [(tt, self.val(st, fr, tt, vv)) for tt, vv in ops[1:]])
            fr.idx += 1
        elif op == 'icmp':
            pred, t, a, b = ins.a
            t = m.resolve(t)
            regs[ins.dst] = self.icmp(st, pred, t, self.val(st, fr, t, a), self.val(st, fr, t, b))
            fr.idx += 1
        elif op == 'cast':
            o, t, v = ins.a
            regs[ins.dst] = self.cast(st, o, m.resolve(t), m.resolve(ins.ty), self.val(st, fr, t, v))
            fr.idx += 1
        elif op == 'call':
            return self.call(st, fr, ins, work, outs, base)
        elif op == 'br':
            self.goto(st, fr, ins.a[0])
        elif op == 'cbr':
            c = self.boolean(self.val(st, fr, I(1), ins.a[0]))
            if isinstance(c, bool):
                self.goto(st, fr, ins.a[1] if c else ins.a[2])
                return
            d = self.decide(st, c)
            if d is None:
                if not self.fork_on(st, c, work):
                    return 'done'
                return
            self.goto(st, fr, ins.a[1] if d else ins.a[2])
        elif op == 'switch':
            t = m.resolve(ins.ty)
            v = self.val(st, fr, t, ins.a[0])
            v = self.addr(v)
            if is_c(v):
                for c, l in ins.a[2]:
                    if mask(c, t[1]) == v:
                        self.goto(st, fr, l)
                        return
                self.goto(st, fr, ins.a[1])
                return
            v = self.bv(v, t[1])
            # group by target
            tg = {}
            for c, l in ins.a[2]:
                tg.setdefault(l, []).append(mask(c, t[1]))
            alts = []
            allc = []
            if len(tg) > 24:
                return self.big_switch(st, fr, v, tg, ins.a[1], work)
            for l, cs in tg.items():
                e = [v == z3.BitVecVal(c, t[1]) for c in cs]
                cond = e[0] if len(e) == 1 else z3.Or(e)
                alts.append((cond, l))
                allc.append(cond)
            alts.append((z3.simplify(z3.Not(z3.Or(allc))), ins.a[1]))
            alive = [(c, l) for c, l in alts if self.feasible(st, c)]
            if not alive:
                return 'done'
            for c, l in alive[1:]:
                s2 = st.clone()
                s2.assume(c)
                self.goto(s2, s2.frames[-1], l)
                work.append(s2)
            st.assume(alive[0][0])
            self.goto(st, fr, alive[0][1])
        elif op == 'ret':
            v = None if ins.a[0] is None else self.val(st, fr, ins.ty, ins.a[0])
            return self.ret(st, v, base, outs)
        elif op == 'select':
            t = m.resolve(ins.ty)
            c = self.boolean(self.val(st, fr, I(1), ins.a[0]))
            a = self.val(st, fr, t, ins.a[1])
            b = self.val(st, fr, t, ins.a[2])
            if isinstance(c, bool):
                regs[ins.dst] = a if c else b
            elif t[0] == 'i' and not isinstance(a, (Ptr, FnPtr)) and not isinstance(b, (Ptr, FnPtr)):
                if t[1] == 1:
                    regs[ins.dst] = simp(z3.If(c, B(self.boolean(a)), B(self.boolean(b))))
                else:
                    regs[ins.dst] = simp(z3.If(c, self.bv(a, t[1]), self.bv(b, t[1])))
            elif t[0] in ('double', 'float'):
                n = 64 if t[0] == 'double' else 32
                regs[ins.dst] = simp(z3.If(c, self.bv(a, n), self.bv(b, n)))
            else:
                d = self.decide(st, c)
                if d is None:
                    raise NeedFork(c)
                regs[ins.dst] = a if d else b
            fr.idx += 1
        elif op == 'alloca':
            t = ins.ty
            n = self.val(st, fr, I(64), ins.a[0])
            if not is_c(n):
                raise Unsupported('variable alloca')
            rid = self.alloc(st, m.sizeof(t) * n, '%' + str(ins.dst), 'stack')
            regs[ins.dst] = Ptr(rid, 0)
            fr.idx += 1
        elif op == 'extractvalue':
            t, v, idx = ins.a
            x = self.val(st, fr, t, v)
            for i in idx:
                x = x[i]
            regs[ins.dst] = x
            fr.idx += 1
        elif op == 'insertvalue':
            v, t2, v2, idx = ins.a
            t = ins.ty
            x = self.val(st, fr, t, v)
            y = self.val(st, fr, t2, v2)
            regs[ins.dst] = self.insert(x, idx, y)
            fr.idx += 1
        elif op == 'fcmp':
            pred, t, a, b = ins.a
            regs[ins.dst] = self.fcmp(pred, t, self.val(st, fr, t, a), self.val(st, fr, t, b))
            fr.idx += 1
        elif op == 'fneg':
            v = self.val(st, fr, ins.ty, ins.a[0])
            n = 64 if ins.ty[0] == 'double' else 32
            regs[ins.dst] = v ^ (1 << (n - 1)) if is_c(v) else simp(v ^ z3.BitVecVal(1 << (n - 1), n))
            fr.idx += 1
        elif op == 'freeze':
            regs[ins.dst] = self.val(st, fr, ins.a[0] and ins.ty, ins.a[0])
            fr.idx += 1
        elif op == 'landingpad':
            regs[ins.dst] = self.landing(st, fr, ins)
            fr.idx += 1
        elif op == 'resume':
            raise Throw(st.exc[1], st.exc[0], st.exc[2])
        elif op == 'unreachable':
            raise UB('unreachable', 'unreachable reached')
        elif op == 'atomicrmw':
            rop, p, v = ins.a
            p = self.val(st, fr, PTR, p)
            t = m.resolve(ins.ty)
            n = m.sizeof(t)
            old = self.load(st, p, n)
            v = self.val(st, fr, t, v)
            new = v if rop == 'xchg' else self.binop(st, rop, t, old, v)
            self.store(st, p, n, new)
            regs[ins.dst] = old
            fr.idx += 1
        elif op == 'cmpxchg':
            t, p, c, nv = ins.a
            p = self.val(st, fr, PTR, p)
            n = m.sizeof(t)
            old = self.load(st, p, n)
            e = self.icmp(st, 'eq', m.resolve(t), old, self.val(st, fr, t, c))
            if not is_c(e):
                raise Unsupported('cmpxchg')
            if e:
                self.store(st, p, n, self.val(st, fr, t, nv))
            regs[ins.dst] = [old, e]
            fr.idx += 1
        else:
            raise Unsupported('instr %s' % op)

    def typed(self, st, t, v):
        if t[0] == 'ptr':
            return self.toptr(st, v)
        if t == ('i', 1):
            return self.cast(st, 'trunc', I(8), t, v)
        return v

    def load_agg(self, st, m, t, p):
        if t[0] == 'struct':
            offs = m.layout(t)[2]
            fs = t[1]
        else:
            s = m.sizeof(t[2])
            offs = [i * s for i in range(t[1])]
            fs = [t[2]] * t[1]
        out = []
        for o, ft in zip(offs, fs):
            ft = m.resolve(ft)
            q = Ptr(p.r, self.add64(p.off, o))
            if ft[0] in ('struct', 'arr'):
                out.append(self.load_agg(st, m, ft, q))
            else:
                out.append(self.typed(st, ft, self.load(st, q, m.sizeof(ft))))
        return out

    def store_agg(self, st, m, t, p, v):
        if t[0] == 'struct':
            offs = m.layout(t)[2]
            fs = t[1]
        else:
            s = m.sizeof(t[2])
            offs = [i * s for i in range(t[1])]
            fs = [t[2]] * t[1]
        if is_c(v) and v == 0:
            v = [0] * len(fs)
        for o, ft, x in zip(offs, fs, v):
            ft = m.resolve(ft)
            q = Ptr(p.r, self.add64(p.off, o))
            if ft[0] in ('struct', 'arr'):
                self.store_agg(st, m, ft, q, x)
            else:
                if ft == ('i', 1):
                    x = self.cast(st, 'zext', ft, I(8), x)
                self.store(st, q, m.sizeof(ft), x)

    def insert(self, x, idx, y):
        x = list(x)
        if len(idx) == 1:
            x[idx[0]] = y
        else:
            x[idx[0]] = self.insert(x[idx[0]], idx[1:], y)
        return x

    def ret(self, st, v, base, outs):
        fr = st.frames.pop()
        if len(st.frames) == base:
            outs.append(Outcome('ret', st, v))
            return 'done'
        if fr.onret is not None:
            v = fr.onret(self, st, v)
        caller = st.frames[-1]
        ins = fr.call
        if ins is None:
            raise Unsupported('return to nothing')
        self.finish_call(st, caller, ins, v)

    def finish_call(self, st, fr, ins, v):
        if ins.dst is not None:
            if v is None:
                v = 0
            fr.regs[ins.dst] = v
        norm = ins.a[2]
        if norm is not None:
            self.goto(st, fr, norm)
        else:
            fr.idx += 1

    # ---- calls
    def resolve_callee(self, st, fr, callee):
        if callee[0] == 'glob':
            return callee[1], fr.f.mod
        if callee[0] == 'reg':
            fp = fr.regs[callee[1]]
            fp = self.toptr(st, fp) if not isinstance(fp, FnPtr) else fp
            if isinstance(fp, FnPtr):
                return fp.name, fp.mod
            raise UB('ub', 'call through invalid function pointer')
        if callee[0] == 'ce':
            fp = self.const(st, fr.f.mod, PTR, callee)
            if isinstance(fp, FnPtr):
                return fp.name, fp.mod
        raise Unsupported('callee %r' % (callee,))

    def contract_for(self, name):
        h = self.ccache.get(name)
        if h is None:
            dem = self.prog.dem.get(name, name)
            h = False
            for c in self.contracts:
                g = c.lookup(name, dem)
                if g is not None:
                    h = g
                    break
            self.ccache[name] = h
        return h

    def call(self, st, fr, ins, work, outs, base):
        callee, args, norm, unw = ins.a
        alt = st.g.get('$alt')
        if alt is not None and alt[0] == id(ins):
            del st.g['$alt']
            self.finish_call(st, fr, ins, alt[1](st))
            return
        if callee[0] == 'asm':
            fr.idx += 1
            return
        name, mod = self.resolve_callee(st, fr, callee)
        if name.startswith('llvm.dbg') or name.startswith('llvm.lifetime') or name.startswith('llvm.experimental.noalias') or name == 'llvm.assume' or name.startswith('llvm.invariant'):
            fr.idx += 1
            return
        if mod.is_internal(name) if name in mod.funcs else False:
            f = mod.funcs[name]
        else:
            f = self.prog.find_func(mod, name)
        vals = [self.val(st, fr, t, v) for t, v in args]
        h = self.contract_for(name)
        if h:
            self.used_contracts[h.cname] = self.used_contracts.get(h.cname, 0) + 1
            cx = CallCtx(self, st, fr, ins, name, args)
            v = h(cx, *vals)
            if v is not NotImplemented:
                if isinstance(v, Invoke):
                    self.push(st, v.f, v.args, ins)
                    st.frames[-1].onret = v.onret
                    return
                self.finish_call(st, fr, ins, v)
                return
        if f is None or f.body is None:
            raise Unsupported('external %s' % self.prog.dem.get(name, name))
        self.push(st, f, vals, ins)

    # ---- exceptions
    def throw(self, st, t, base, outs):
        st.exc = (t.ptr, t.ti, t.note)
        while len(st.frames) > base:
            fr = st.frames[-1]
            ins = fr.f.instrs(fr.block)[fr.idx] if fr.idx < len(fr.f.instrs(fr.block)) else None
            if ins is not None and ins.op == 'call' and ins.a[3] is not None:
                lab = ins.a[3]
                lp = None
                for i2 in fr.f.instrs(lab):
                    if i2.op == 'landingpad':
                        lp = i2
                        break
                if lp is not None and self.lp_match(st, fr, lp) is not None:
                    self.goto(st, fr, lab)
                    return True
            st.frames.pop()
        outs.append(Outcome('throw', st, t.ti, note=t.note))
        return False

    def lp_match(self, st, fr, lp):
        """selector value or None"""
        cleanup, cl = lp.a
        for kind, (t, v) in cl:
            if kind == 'filter':
                return -1
            if v[0] == 'null':
                return self.typeid('')
            if v[0] == 'glob':
                if st.exc[1] is None or self.derives(fr.f.mod, st.exc[1], v[1]):
                    return self.typeid(v[1])
            else:
                raise Unsupported('catch clause')
        return 0 if cleanup else None

    def landing(self, st, fr, ins):
        s = self.lp_match(st, fr, ins)
        return [st.exc[0] if st.exc[0] is not None else 0, s]

    def typeid(self, name):
        if name not in self.typeids:
            self.typeids[name] = len(self.typeids) + 1
        return self.typeids[name]

    def ti_bases(self, name):
        """[(base typeinfo name, offset, virtual?)] from the type_info global"""
        m = self.prog.gext.get(name)
        if m is None:
            return STD_BASES.get(name, [])
        t, init, const, kind = m.global_def(name)
        if init[0] != 'agg':
            return []
        el = init[1]
        out = []
        vt = str(el[0][1])
        if '__si_class_type_info' in vt:
            out.append((el[2][1][1], 0, False))
        elif '__vmi_class_type_info' in vt:
            i = 4
            while i + 1 < len(el):
                b = el[i][1][1]
                fl = el[i + 1][1][1]
                out.append((b, fl >> 8, bool(fl & 1)))
                i += 2
        return out

    def derives(self, mod, a, b):
        if a == b:
            return True
        return any(self.derives(mod, x, b) for x, _, _ in self.ti_bases(a))


STD_BASES = {
    '_ZTISt13runtime_error': [('_ZTISt9exception', 0, False)],
    '_ZTISt11logic_error': [('_ZTISt9exception', 0, False)],
    '_ZTISt16invalid_argument': [('_ZTISt11logic_error', 0, False)],
    '_ZTISt12out_of_range': [('_ZTISt11logic_error', 0, False)],
    '_ZTISt12length_error': [('_ZTISt11logic_error', 0, False)],
    '_ZTISt12domain_error': [('_ZTISt11logic_error', 0, False)],
    '_ZTISt9bad_alloc': [('_ZTISt9exception', 0, False)],
    '_ZTISt20bad_array_new_length': [('_ZTISt9bad_alloc', 0, False)],
}


class NeedCheck(Exception):
    def __init__(self, cond, note, kind='ub'):
        self.cond = cond
        self.note = note
        self.kind = kind


class IntPtr:
    pass


class FnPtrK(FnPtr):
    __slots__ = ('key',)

    def __init__(self, name, mod, r, key):
        FnPtr.__init__(self, name, mod, r)
        self.key = key


class Invoke:
    """a contract may ask for a real function to be executed, then post-process its result"""

    def __init__(self, f, args, onret=None):
        self.f = f
        self.args = args
        self.onret = onret


class CallCtx:
    __slots__ = ('ex', 'st', 'fr', 'ins', 'name', 'args')

    def __init__(self, ex, st, fr, ins, name, args):
        self.ex = ex
        self.st = st
        self.fr = fr
        self.ins = ins
        self.name = name
        self.args = args


def B(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    return x


def simp_bool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e
