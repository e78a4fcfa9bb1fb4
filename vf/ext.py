"""Trusted contracts: what the verifier assumes about code outside /repo
(C/C++ runtime, libstdc++ parts without source, GMP, libm), plus the collector's
root-table hooks (their own property is P-collector / pointer sets).

Every contract used on a run is counted in Exec.used_contracts and reported as
an assumption in the evidence.
"""
import re
import z3
from . import smt, sym
from .sym import Ptr, FnPtr, UB, Throw, Branches, NeedCheck, Unsupported, Invoke, is_c, simp, B

I64 = 64


class Table:
    def __init__(self):
        self.exact = {}
        self.dem = {}
        self.rx = []

    def lookup(self, mangled, dem):
        h = self.exact.get(mangled)
        if h is None:
            h = self.dem.get(dem)
        if h is None:
            for rx, f in self.rx:
                if rx.search(dem):
                    h = f
                    break
        return h

    def c(self, *names, cname=None):
        def deco(f):
            for n in names:
                g = _wrap(f, cname or n)
                self.exact[n] = g
            return f
        return deco

    def d(self, *names, cname=None):
        def deco(f):
            for n in names:
                self.dem[n] = _wrap(f, cname or n)
            return f
        return deco

    def r(self, *pats, cname=None):
        def deco(f):
            for p in pats:
                self.rx.append((re.compile(p), _wrap(f, cname or p)))
            return f
        return deco


def _wrap(f, name):
    def h(cx, *a):
        return f(cx, *a)
    h.cname = name
    return h


RT = Table()      # C / C++ runtime
GMP = Table()
GC = Table()      # collector hooks
ERR = Table()     # diagnostics: error objects are opaque
STR = Table()     # containers
TXT = Table()     # meevax::string(std::string) on known text (discharged in B04)

# --------------------------------------------------------------- llvm intrinsics


@RT.r(r'^llvm\.memcpy\.', r'^llvm\.memmove\.', cname='llvm.memcpy/memmove')
def _(cx, d, s, n, *rest):
    cx.ex.memcpy(cx.st, d, s, n)


@RT.c('memcpy', 'memmove', cname='memcpy/memmove')
def _(cx, d, s, n):
    cx.ex.memcpy(cx.st, d, s, n)
    return d


@RT.r(r'^llvm\.memset\.', cname='llvm.memset')
def _(cx, d, b, n, *rest):
    cx.ex.memset(cx.st, d, b, n)


@RT.c('memset')
def _(cx, d, b, n):
    cx.ex.memset(cx.st, d, b, n)
    return d


def _bits(cx):
    return int(cx.name.rsplit('.i', 1)[1])


@RT.r(r'^llvm\.(s|u)(max|min)\.i\d+$', r'^llvm\.abs\.i\d+$', cname='llvm.smax/smin/umax/umin/abs')
def _(cx, a, b):
    n = _bits(cx)
    ex = cx.ex
    k = cx.name.split('.')[1]
    A, Bb = ex.bv(a, n), ex.bv(b, n)
    if k == 'abs':
        # int_min is poison only when the flag is set; the C++ UB is reported as such
        if is_c(b) and b & 1:
            ex.require(cx.st, A != z3.BitVecVal(1 << (n - 1), n), 'abs of the minimum')
        return simp(z3.If(A < 0, -A, A))
    c = {'smax': A > Bb, 'smin': A < Bb, 'umax': z3.UGT(A, Bb), 'umin': z3.ULT(A, Bb)}[k]
    return simp(z3.If(c, A, Bb))


@RT.c('abs', 'labs', 'llabs', cname='abs/labs')
def _(cx, a):
    n = 32 if cx.name == 'abs' else 64
    A = cx.ex.bv(a, n)
    cx.ex.require(cx.st, A != z3.BitVecVal(1 << (n - 1), n), 'abs of the minimum')
    return simp(z3.If(A < 0, -A, A))


def popcount(e):
    n = e.size()
    # tree reduction
    parts = [z3.ZeroExt(n - 1, z3.Extract(i, i, e)) for i in range(n)]
    while len(parts) > 1:
        parts = [parts[i] + parts[i + 1] if i + 1 < len(parts) else parts[i] for i in range(0, len(parts), 2)]
    return parts[0]


def clz(e):
    n = e.size()
    r = z3.BitVecVal(n, n)
    for i in range(n):
        r = z3.If(z3.Extract(i, i, e) == 1, z3.BitVecVal(n - 1 - i, n), r)
    return r


def ctz(e):
    n = e.size()
    r = z3.BitVecVal(n, n)
    for i in reversed(range(n)):
        r = z3.If(z3.Extract(i, i, e) == 1, z3.BitVecVal(i, n), r)
    return r


@RT.r(r'^llvm\.(ctpop|ctlz|cttz)\.i\d+$', cname='llvm.ctpop/ctlz/cttz')
def _(cx, a, *rest):
    n = _bits(cx)
    A = cx.ex.bv(a, n)
    k = cx.name.split('.')[1]
    R = {'ctpop': popcount, 'ctlz': clz, 'cttz': ctz}[k](A)
    if k != 'ctpop' and rest and is_c(rest[0]) and rest[0] & 1:
        # poison on 0: an arbitrary value (a guard in the caller selects another one)
        R = z3.If(A == 0, z3.FreshConst(z3.BitVecSort(n), 'poison'), R)
    return simp(R)


@RT.r(r'^llvm\.expect\.', cname='llvm.expect')
def _(cx, a, b, *r):
    return a


@RT.r(r'^llvm\.(s|u)(add|sub|mul)\.with\.overflow\.i\d+$', cname='llvm.*.with.overflow')
def _(cx, a, b):
    n = _bits(cx)
    ex = cx.ex
    A, Bb = ex.bv(a, n), ex.bv(b, n)
    k = cx.name.split('.')[1]
    s = k[0] == 's'
    if k[1:] == 'mul' and not s and (is_c(a) or is_c(b)):
        c, x = (a, Bb) if is_c(a) else (b, A)
        r = A * Bb
        o = z3.BoolVal(False) if c in (0, 1) else z3.UGT(x, z3.BitVecVal(((1 << n) - 1) // c, n))
        return [simp(r), simp(o)]
    ext = z3.SignExt if s else z3.ZeroExt
    m = n if k[1:] == 'mul' else 1
    X, Y = ext(m, A), ext(m, Bb)
    w = {'add': X + Y, 'sub': X - Y, 'mul': X * Y}[k[1:]]
    r = z3.Extract(n - 1, 0, w)
    return [simp(r), simp(ext(m, r) != w)]


@RT.r(r'^llvm\.(u|s)(add|sub)\.sat\.', r'^llvm\.bswap\.', r'^llvm\.load\.relative', r'^llvm\.objectsize', r'^llvm\.threadlocal', r'^llvm\.va_', cname='llvm.other')
def _(cx, *a):
    if 'threadlocal' in cx.name:
        return a[0]
    raise Unsupported(cx.name)


@RT.r(r'^llvm\.fsh[lr]\.i\d+$', cname='llvm.fshl/fshr')
def _(cx, a, b, c):
    n = _bits(cx)
    if not is_c(c):
        raise Unsupported('funnel shift by a variable')
    c %= n
    w = z3.Concat(cx.ex.bv(a, n), cx.ex.bv(b, n))
    if '.fshl.' in cx.name:
        return simp(z3.Extract(2 * n - 1 - c, n - c, w))
    return simp(z3.Extract(n - 1 + c, c, w))


@RT.c('llvm.eh.typeid.for', cname='llvm.eh.typeid.for')
def _(cx, p):
    return cx.ex.typeid(symname(cx, p))


@RT.r(r'^llvm\.eh\.typeid\.for', cname='llvm.eh.typeid.for')
def _(cx, p):
    return cx.ex.typeid(symname(cx, p))


@RT.c('llvm.trap', 'abort', '__cxa_pure_virtual', '_ZSt9terminatev', '__clang_call_terminate', cname='trap/abort/terminate')
def _(cx, *a):
    raise UB('trap', 'abort/terminate reached (%s)' % cx.name)


@RT.c('llvm.stacksave', 'llvm.stacksave.p0', 'llvm.stackrestore', 'llvm.stackrestore.p0', '__cxa_atexit', cname='stacksave/atexit')
def _(cx, *a):
    return 0


@RT.r(r'^llvm\.is\.constant', cname='llvm.is.constant')
def _(cx, *a):
    return 0


def fpt(cx):
    return ('double',) if cx.name.endswith('f64') else ('float',)


@RT.r(r'^llvm\.is\.fpclass\.f', cname='llvm.is.fpclass')
def _(cx, v, m):
    t = fpt(cx)
    e = cx.ex.fp(t, v)
    neg = z3.fpIsNegative(e)
    parts = []
    if m & 3:
        parts.append(z3.fpIsNaN(e))
    tests = [(4, z3.And(neg, z3.fpIsInf(e))), (8, z3.And(neg, z3.fpIsNormal(e))), (16, z3.And(neg, z3.fpIsSubnormal(e))), (32, z3.And(neg, z3.fpIsZero(e))),
             (64, z3.And(z3.Not(neg), z3.fpIsZero(e))), (128, z3.And(z3.Not(neg), z3.fpIsSubnormal(e))), (256, z3.And(z3.Not(neg), z3.fpIsNormal(e))), (512, z3.And(z3.Not(neg), z3.fpIsInf(e)))]
    for b, c in tests:
        if m & b:
            parts.append(c)
    return simp(z3.Or(parts))


@RT.r(r'^llvm\.fabs\.f', cname='llvm.fabs')
def _(cx, v):
    n = 64 if cx.name.endswith('64') else 32
    if is_c(v):
        return v & ((1 << (n - 1)) - 1)
    return simp(v & z3.BitVecVal((1 << (n - 1)) - 1, n))


@RT.r(r'^llvm\.(floor|ceil|trunc|round|rint|roundeven|nearbyint)\.f(64|32)$', cname='llvm.floor/ceil/trunc/round')
def _(cx, v):
    k = cx.name.split('.')[1]
    t = fpt(cx)
    rm = {'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ(), 'round': z3.RNA(), 'rint': z3.RNE(), 'roundeven': z3.RNE(), 'nearbyint': z3.RNE()}[k]
    return cx.ex.fpresult(t, z3.fpRoundToIntegral(rm, cx.ex.fp(t, v)))


@RT.c('floor', 'ceil', 'trunc', 'round', 'rint', 'nearbyint', cname='libm rounding')
def _(cx, v):
    rm = {'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ(), 'round': z3.RNA(), 'rint': z3.RNE(), 'nearbyint': z3.RNE()}[cx.name]
    return cx.ex.fpresult(('double',), z3.fpRoundToIntegral(rm, cx.ex.fp(('double',), v)))


LIBM1 = 'sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh exp exp2 expm1 log log2 log10 log1p sqrt cbrt tgamma lgamma erf erfc logb ilogb sinf cosf tanf asinf acosf atanf expf logf sqrtf j0 j1 y0 y1'.split()
LIBM2 = 'pow atan2 fmod remainder hypot nextafter copysign ldexp jn yn fmodf remainderf powf atan2f'.split()


def uf(name, *sorts):
    return z3.Function(name, *sorts)


@RT.c(*LIBM1, cname='libm (uninterpreted)')
def _(cx, v):
    n = 32 if cx.name.endswith('f') and cx.name not in ('erf',) else 64
    if cx.name == 'ilogb':
        return uf('m_ilogb', z3.BitVecSort(64), z3.BitVecSort(32))(cx.ex.bv(v, 64))
    return uf('m_' + cx.name, z3.BitVecSort(n), z3.BitVecSort(n))(cx.ex.bv(v, n))


def copysign(cx, a, b, n):
    return simp(z3.Concat(z3.Extract(n - 1, n - 1, cx.ex.bv(b, n)), z3.Extract(n - 2, 0, cx.ex.bv(a, n))))


@RT.c(*LIBM2, cname='libm (uninterpreted)')
def _(cx, a, b):
    n = 32 if cx.name.endswith('f') else 64
    nb = 32 if cx.name == 'ldexp' else n
    if cx.name == 'copysign':
        return copysign(cx, a, b, 64)
    S = z3.BitVecSort
    if cx.name in ('jn', 'yn'):
        return uf('m_' + cx.name, S(32), S(64), S(64))(cx.ex.bv(a, 32), cx.ex.bv(b, 64))
    return uf('m_' + cx.name, S(n), S(nb), S(n))(cx.ex.bv(a, n), cx.ex.bv(b, nb))


@RT.r(r'^llvm\.(sqrt|sin|cos|exp|log|pow|exp2|log2|log10|copysign|fmuladd|maxnum|minnum)\.f', cname='libm (uninterpreted)')
def _(cx, *a):
    n = 64 if cx.name.endswith('64') else 32
    S = z3.BitVecSort(n)
    if '.copysign.' in cx.name:
        return copysign(cx, a[0], a[1], n)
    if '.fmuladd.' in cx.name:
        t = fpt(cx)
        return cx.ex.fbin('fadd', t, cx.ex.fbin('fmul', t, a[0], a[1]), a[2])
    k = 'm_' + cx.name.split('.')[1] + ('' if n == 64 else 'f')
    return uf(k, *([S] * (len(a) + 1)))(*[cx.ex.bv(x, n) for x in a])


# --------------------------------------------------------------- memory, exceptions
@RT.c('_Znwm', '_Znam', 'malloc', cname='operator new')
def _(cx, n, *r):
    if not is_c(n):
        raise Unsupported('symbolic allocation size')
    return Ptr(cx.ex.alloc(cx.st, n, 'heap', 'heap'), 0)


@RT.c('calloc')
def _(cx, a, b):
    return Ptr(cx.ex.alloc(cx.st, a * b, 'heap', 'heap', zero=True), 0)


@RT.c('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', '_ZdlPvSt11align_val_t', 'free', cname='operator delete')
def _(cx, p, *r):
    p = cx.ex.toptr(cx.st, p)
    if isinstance(p, Ptr):
        if cx.st.reg(p.r).alive is False:
            raise UB('ub', 'double free')
        cx.st.wreg(p.r).alive = False


@RT.c('__cxa_allocate_exception')
def _(cx, n):
    return Ptr(cx.ex.alloc(cx.st, n, 'exception', 'heap'), 0)


@RT.c('__cxa_free_exception', '__cxa_end_catch', cname='__cxa_end_catch')
def _(cx, *a):
    if cx.name == '__cxa_end_catch' and cx.st.caught:
        cx.st.caught.pop()
    return 0


def symname(cx, p):
    if is_c(p) and p == 0:
        return ''
    p = cx.ex.toptr(cx.st, p)
    return cx.st.reg(p.r).name[1:]


@RT.c('__cxa_throw')
def _(cx, obj, ti, dtor):
    cx.st.g['$threw'] = cx.st.g.get('$threw', 0) + 1
    raise Throw(symname(cx, ti), cx.ex.toptr(cx.st, obj), 'throw')


@RT.c('__cxa_begin_catch', '__cxa_get_exception_ptr', cname='__cxa_begin_catch')
def _(cx, p):
    if cx.name == '__cxa_begin_catch':
        cx.st.caught.append(cx.st.exc)
    return p


@RT.c('__cxa_rethrow')
def _(cx):
    e = cx.st.caught.pop()
    raise Throw(e[1], e[0], e[2])


@RT.c('__cxa_guard_acquire')
def _(cx, p):
    v = cx.ex.load(cx.st, p, 1)
    return 0 if is_c(v) and v & 1 else 1


@RT.c('__cxa_guard_release', '__cxa_guard_abort', cname='__cxa_guard_release')
def _(cx, p):
    cx.ex.store(cx.st, p, 1, 1)
    return 0


THROWERS = {
    '_ZSt19__throw_logic_errorPKc': '_ZTISt11logic_error', '_ZSt20__throw_length_errorPKc': '_ZTISt12length_error', '_ZSt20__throw_out_of_rangePKc': '_ZTISt12out_of_range',
    '_ZSt24__throw_out_of_range_fmtPKcz': '_ZTISt12out_of_range', '_ZSt17__throw_bad_allocv': '_ZTISt9bad_alloc', '_ZSt28__throw_bad_array_new_lengthv': '_ZTISt20bad_array_new_length',
    '_ZSt24__throw_invalid_argumentPKc': '_ZTISt16invalid_argument', '_ZSt25__throw_bad_function_callv': '_ZTISt17bad_function_call', '_ZSt16__throw_bad_castv': '_ZTISt8bad_cast',
    '__cxa_bad_cast': '_ZTISt8bad_cast', '__cxa_bad_typeid': '_ZTISt10bad_typeid',
}


@RT.c(*THROWERS, cname='std::__throw_*')
def _(cx, *a):
    raise Throw(THROWERS[cx.name], None, cx.name)


@RT.d('std::type_info::operator==(std::type_info const&) const')
def _(cx, a, b):
    return int(symname(cx, a) == symname(cx, b))


@RT.d('std::type_info::hash_code() const')
def _(cx, a):
    import zlib
    return zlib.crc32(symname(cx, a).encode()) * 0x9e3779b97f4a7c15 & ((1 << 64) - 1)


@RT.d('std::type_info::before(std::type_info const&) const')
def _(cx, a, b):
    return int(symname(cx, a) < symname(cx, b))


@RT.d('std::type_info::name() const')
def _(cx, a):
    s = symname(cx, a)[4:].encode() + b'\0'
    r = cx.ex.alloc(cx.st, len(s), 'typename', 'global')
    w = cx.st.wreg(r)
    for i, b in enumerate(s):
        w.cells[i] = (1, b)
    return Ptr(r, 0)


@RT.c('__dynamic_cast')
def _(cx, src, sti, dti, hint):
    ex, st = cx.ex, cx.st
    src = ex.toptr(st, src)
    if not isinstance(src, Ptr):
        return 0
    vp = ex.toptr(st, ex.load(st, src, 8))
    if not isinstance(vp, Ptr):
        raise UB('ub', 'dynamic_cast of an object without a vtable')
    ott = ex.load(st, Ptr(vp.r, vp.off - 16), 8)
    ott = sym.sgn(ott, 64)
    ti = ex.toptr(st, ex.load(st, Ptr(vp.r, vp.off - 8), 8))
    most = st.reg(ti.r).name[1:]
    dst = symname(cx, dti)
    res = []

    def walk(name, p):
        if name == dst:
            res.append(p)
            return
        for b, off, virt in ex.ti_bases(name):
            if virt:
                v = ex.toptr(st, ex.load(st, p, 8))
                o = sym.sgn(ex.load(st, Ptr(v.r, v.off + off), 8), 64)
            else:
                o = off
            walk(b, Ptr(p.r, p.off + o))
    walk(most, Ptr(src.r, src.off + ott))
    uniq = {(p.r, p.off) for p in res}
    if len(uniq) != 1:
        return 0
    return res[0]


@RT.c('strlen')
def _(cx, p):
    p = cx.ex.toptr(cx.st, p)
    n = 0
    while True:
        b = cx.ex.load(cx.st, Ptr(p.r, cx.ex.add64(p.off, n)), 1)
        if is_c(b):
            if b == 0:
                return n
        elif cx.ex.feasible(cx.st, b == 0):
            if cx.ex.feasible(cx.st, b != 0):
                raise sym.NeedFork(b == 0)
            return n
        n += 1
        if n > 5000:
            raise Unsupported('strlen')


@RT.c('memcmp', 'bcmp', cname='memcmp')
def _(cx, a, b, n):
    ex, st = cx.ex, cx.st
    if not is_c(n):
        raise Unsupported('memcmp symbolic')
    if n == 0:
        return 0
    a, b = ex.toptr(st, a), ex.toptr(st, b)
    r = z3.BitVecVal(0, 32)
    allc = True
    for i in reversed(range(n)):
        x = ex.load(st, Ptr(a.r, ex.add64(a.off, i)), 1)
        y = ex.load(st, Ptr(b.r, ex.add64(b.off, i)), 1)
        X, Y = ex.bv(x, 8), ex.bv(y, 8)
        r = z3.If(z3.ULT(X, Y), z3.BitVecVal(-1, 32), z3.If(z3.UGT(X, Y), z3.BitVecVal(1, 32), r))
    return simp(r)


@RT.c('strcmp')
def _(cx, a, b):
    ex, st = cx.ex, cx.st
    a, b = ex.toptr(st, a), ex.toptr(st, b)
    i = 0
    while True:
        x = ex.load(st, Ptr(a.r, ex.add64(a.off, i)), 1)
        y = ex.load(st, Ptr(b.r, ex.add64(b.off, i)), 1)
        if not (is_c(x) and is_c(y)):
            raise Unsupported('strcmp symbolic')
        if x != y:
            return (1 if x > y else -1) & 0xffffffff
        if x == 0:
            return 0
        i += 1


@RT.c('memchr')
def _(cx, p, c, n):
    ex, st = cx.ex, cx.st
    p = ex.toptr(st, p)
    if not is_c(n) or not is_c(c):
        raise Unsupported('memchr')
    for i in range(n):
        b = ex.load(st, Ptr(p.r, ex.add64(p.off, i)), 1)
        if is_c(b):
            if b == c & 255:
                return Ptr(p.r, ex.add64(p.off, i))
        else:
            e = b == z3.BitVecVal(c & 255, 8)
            d = ex.decide(st, e)
            if d is None:
                raise sym.NeedFork(e)
            if d:
                return Ptr(p.r, ex.add64(p.off, i))
    return 0


@RT.d('std::uncaught_exception()', 'std::uncaught_exceptions()')
def _(cx):
    return 0


# libstdc++ out-of-line exception constructors: the message is not part of any property
@RT.r(r'^std::(runtime_error|logic_error|invalid_argument|out_of_range|length_error|domain_error|exception)::(runtime_error|logic_error|invalid_argument|out_of_range|length_error|domain_error|exception|~\w+)\(', cname='std::exception constructors')
def _(cx, p, *a):
    return None


@RT.d('std::exception::~exception()', 'std::runtime_error::~runtime_error()')
def _(cx, *a):
    return None


# --------------------------------------------------------------- collector hooks
@GC.d('meevax::request(unsigned long)', cname='request(n) [collection leaves reachable objects unchanged]')
def _(cx, n):
    return None


@GC.d('meevax::insert(meevax::pair const*)', cname='insert(pair) [bookkeeping only]')
def _(cx, p):
    return None


@GC.d('meevax::object::insert() const', 'meevax::object::erase() const', cname='object::insert/erase [root table bookkeeping only]')
def _(cx, p):
    return None


@GC.d('meevax::clear_once()', 'meevax::clear()', cname='clear()')
def _(cx):
    return None


@GC.r(r'^meevax::binder<.*>::operator new\(unsigned long\)$', cname='binder::operator new [fresh storage]')
def _(cx, n):
    return Ptr(cx.ex.alloc(cx.st, n, 'obj', 'obj'), 0)


@GC.r(r'^meevax::binder<.*>::operator delete\(void\*\)$', cname='binder::operator delete')
def _(cx, p):
    p = cx.ex.toptr(cx.st, p)
    if isinstance(p, Ptr):
        cx.st.wreg(p.r).alive = False


@GC.r(r'^meevax::stateful_allocator<.*>::~?stateful_allocator\(\)$', r'^meevax::segregated_storage_allocator<.*>::~?segregated_storage_allocator\(', cname='allocator object lifetime')
def _(cx, *a):
    return None


# --------------------------------------------------------------- diagnostics
@ERR.r(r'^meevax::error::error\(', r'^meevax::\w+_error::\w+_error\(', cname='error object construction (opaque)')
def _(cx, p, *a):
    return None


@ERR.r(r'^meevax::error::~error\(', r'^meevax::\w+_error::~', cname='error object destruction (opaque)')
def _(cx, p, *a):
    return None


@ERR.d('meevax::demangle(char const*)', 'meevax::demangle(std::type_info const&)', cname='demangle (opaque text)')
def _(cx, sret, *a):
    opaque_string(cx, sret)


def opaque_string(cx, p):
    """an empty SSO std::string stands for a diagnostic text"""
    ex, st = cx.ex, cx.st
    p = ex.toptr(st, p)
    ex.store(st, p, 8, Ptr(p.r, p.off + 16))
    ex.store(st, Ptr(p.r, p.off + 8), 8, 0)
    ex.store(st, Ptr(p.r, p.off + 16), 1, 0)


@ERR.r(r'^meevax::object meevax::make<meevax::string, std::allocator<void>, char const \(&\) \[\d+\]>', r'^auto meevax::make<meevax::string, .*char const \(&\)', cname='make<string>(literal) (opaque diagnostic text)')
def _(cx, sret, *a):
    r = cx.ex.alloc(cx.st, 8, 'diagnostic', 'opaque')
    cx.ex.store(cx.st, sret, 8, Ptr(r, 0))
    w = cx.st.wreg(cx.ex.toptr(cx.st, sret).r)
    return None


# --------------------------------------------------------------- std::unordered_map<object, object>
UM = r'std::unordered_map<meevax::object, meevax::object, .*>::'


def um(cx, p):
    p = cx.ex.toptr(cx.st, p)
    m = cx.st.reg(p.r).ghost.get('map')
    if m is None:
        raise Unsupported('unordered_map not constructed')
    return p, m


def um_find(cx, m, w):
    for k, n in m:
        e = k == w if is_c(k) and is_c(w) else z3.simplify(cx.ex.bv(k, 64) == cx.ex.bv(w, 64))
        if e is True or (not isinstance(e, bool) and z3.is_true(e)):
            return n
        if e is not False and not z3.is_false(e):
            raise Unsupported('unordered_map key of unknown identity')
    return 0


@STR.r('^' + UM + r'unordered_map\(\)$', cname='std::unordered_map<object, object>')
def _(cx, p):
    p = cx.ex.toptr(cx.st, p)
    cx.st.wreg(p.r).ghost['map'] = ()


@STR.r('^' + UM + r'~unordered_map\(\)$', cname='std::unordered_map<object, object>')
def _(cx, p):
    p, m = um(cx, p)
    cx.st.wreg(p.r).ghost['map'] = None


@STR.r('^' + UM + r'find\(', cname='std::unordered_map<object, object>')
def _(cx, p, k):
    p, m = um(cx, p)
    return um_find(cx, m, cx.ex.load(cx.st, k, 8))


@STR.r('^' + UM + r'end\(\)', cname='std::unordered_map<object, object>')
def _(cx, p):
    return 0


@STR.r(r'^std::pair<std::__detail::_Node_iterator<std::pair<meevax::object const, meevax::object>, .* ' + UM + r'emplace<', cname='std::unordered_map<object, object>')
def _(cx, p, k, v):
    p, m = um(cx, p)
    w = cx.ex.load(cx.st, k, 8)
    n = um_find(cx, m, w)
    if n != 0:
        return [n, 0]
    n = Ptr(cx.ex.alloc(cx.st, 24, 'map node', 'heap'), 0)
    x = cx.ex.load(cx.st, v, 8)
    cx.ex.store(cx.st, Ptr(n.r, 8), 8, w)
    cx.ex.store(cx.st, Ptr(n.r, 16), 8, x)
    cx.st.wreg(p.r).ghost['map'] = m + ((w, n),)
    return [n, 1]


# --------------------------------------------------------------- text
def stdstring(cx, p):
    """the bytes of a std::string whose length is known, [int or term]"""
    ex, st = cx.ex, cx.st
    p = ex.toptr(st, p)
    b = ex.toptr(st, ex.load(st, p, 8))
    n = ex.load(st, Ptr(p.r, p.off + 8), 8)
    if not is_c(n):
        raise Unsupported('text of unknown length')
    return [ex.load(st, Ptr(b.r, ex.add64(b.off, i)), 1) for i in range(n)]


def put_vector(cx, p, words, size):
    """lay out a std::vector at p whose elements are the given words"""
    ex, st = cx.ex, cx.st
    p = ex.toptr(st, p)
    n = len(words) * size
    if n:
        b = Ptr(ex.alloc(st, n, 'vector storage', 'heap'), 0)
        for i, w in enumerate(words):
            ex.store(st, Ptr(b.r, i * size), size, w)
        e = Ptr(b.r, n)
    else:
        b = e = 0
    for o, v in ((0, b), (8, e), (16, e)):
        ex.store(st, Ptr(p.r, ex.add64(p.off, o)), 8, v)


@TXT.d('meevax::string::string(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> > const&)', 'meevax::string::string(std::string const&)', cname='string(std::string) [the characters its UTF-8 text encodes]')
def _(cx, p, s):
    bs = stdstring(cx, s)
    if all(is_c(b) for b in bs):
        cps = [ord(c) for c in bytes(b & 0xff for b in bs).decode('utf-8')]
    else:
        return NotImplemented
    put_vector(cx, p, cps, 4)


# --------------------------------------------------------------- GMP
def zload(cx_or, p):
    """(Int value) of the mpz at p"""
    ex, st = (cx_or.ex, cx_or.st) if hasattr(cx_or, 'ex') else cx_or
    p = ex.toptr(st, p)
    d = ex.toptr(st, ex.load(st, Ptr(p.r, ex.add64(p.off, 8)), 8))
    if not isinstance(d, Ptr):
        raise UB('ub', 'uninitialised mpz')
    r = st.reg(d.r)
    if r.kind != 'limbs' or not r.alive:
        raise UB('ub', 'use of uninitialised/cleared mpz')
    v = r.ghost['v']
    s = r.ghost['s']
    sf = ex.load(st, Ptr(p.r, ex.add64(p.off, 4)), 4)
    if same(sf, s):
        return v
    neg = simp(-(z3.BitVecVal(s, 32) if is_c(s) else s))
    if same(sf, neg):
        return -v
    # sign of the size field decides
    raise Unsupported('mpz size field was edited')


def same(a, b):
    if is_c(a) or is_c(b):
        return is_c(a) and is_c(b) and (a & 0xffffffff) == (b & 0xffffffff)
    return a.eq(b)


_zs = {}


def zsize(v):
    v = z3.simplify(v)
    if z3.is_int_value(v):
        n = v.as_long()
        k = (abs(n).bit_length() + 63) // 64
        return (k if n >= 0 else -k) & 0xffffffff
    r = _zs.get(v.get_id())
    if r is None:
        b, i = smt.mk_int_bv('zsize', 32)
        smt.attach(i, (i > 0) == (v > 0), (i < 0) == (v < 0), i >= -(1 << 20), i <= (1 << 20),
                   (smt.absi(i) <= 1) == z3.And(v > -(1 << 64), v < (1 << 64)))
        r = (b, v)
        _zs[v.get_id()] = r
    return r[0]


def zinit(cx, p, v):
    ex, st = cx.ex, cx.st
    v = z3.IntVal(v) if isinstance(v, int) else v
    p = ex.toptr(st, p)
    rid = ex.alloc(st, 8, 'limbs', 'limbs')
    s = zsize(v)
    w = st.wreg(rid)
    w.ghost['v'] = v
    w.ghost['s'] = s
    ex.store(st, Ptr(rid, 0), 8, lowlimb(v))
    ex.store(st, p, 4, 1)
    ex.store(st, Ptr(p.r, ex.add64(p.off, 4)), 4, s)
    ex.store(st, Ptr(p.r, ex.add64(p.off, 8)), 8, Ptr(rid, 0))


def zset(cx, p, v):
    """assignment to an initialised mpz"""
    zload(cx, p)
    ex, st = cx.ex, cx.st
    p = ex.toptr(st, p)
    d = ex.toptr(st, ex.load(st, Ptr(p.r, ex.add64(p.off, 8)), 8))
    v = z3.IntVal(v) if isinstance(v, int) else v
    s = zsize(v)
    w = st.wreg(d.r)
    w.ghost['v'] = v
    w.ghost['s'] = s
    ex.store(st, Ptr(d.r, 0), 8, lowlimb(v))
    ex.store(st, Ptr(p.r, ex.add64(p.off, 4)), 4, s)


def lowlimb(v):
    """_mp_d[0]: |v| modulo 2^64 (what mpz_odd_p and mpz_even_p read)"""
    x = z3.simplify(v)
    if z3.is_int_value(x):
        return abs(x.as_long()) % (1 << 64)
    k = _gui.get(x.get_id())
    if k is None:
        b, i = smt.mk_int_bv('getui', 64, False)
        smt.attach(i, i == smt.absi(x) % (1 << 64))
        k = (b, x)
        _gui[x.get_id()] = k
    return k[0]


def g(*names):
    return GMP.c(*['__gmpz_' + n for n in names], cname='GMP mpz_' + '/'.join(names))


@g('init')
def _(cx, p):
    zinit(cx, p, 0)


@g('init2')
def _(cx, p, n):
    zinit(cx, p, 0)


@g('init_set')
def _(cx, p, q):
    zinit(cx, p, zload(cx, q))


@g('init_set_si')
def _(cx, p, n):
    zinit(cx, p, smt.sint(cx.ex.bv(n, 64)))


@g('init_set_ui')
def _(cx, p, n):
    zinit(cx, p, smt.uint(cx.ex.bv(n, 64)))


D2Z = z3.Function('d2z', z3.BitVecSort(64), z3.IntSort())
Z2D = z3.Function('z2d', z3.IntSort(), z3.BitVecSort(64))
CMPD = z3.Function('cmp_z_d', z3.IntSort(), z3.BitVecSort(64), z3.IntSort())


def finite(cx, d, what):
    e = cx.ex.fp(('double',), d)
    ok = simp(z3.Not(z3.Or(z3.fpIsNaN(e), z3.fpIsInf(e))))
    if is_c(ok):
        if not ok:
            raise UB('trap', what + ' of a non-finite double aborts')
        return
    if not any(ok.eq(c) for c in cx.st.pc if not isinstance(c, bool)):
        raise NeedCheck(ok, what + ' of a non-finite double aborts', 'trap')


def d2z(cx, d):
    if is_c(d):
        return z3.IntVal(int(cx.ex.pyf(('double',), d)))
    return D2Z(d)


@g('init_set_d')
def _(cx, p, d):
    finite(cx, d, 'mpz_init_set_d')
    zinit(cx, p, d2z(cx, d))


@g('set_d')
def _(cx, p, d):
    finite(cx, d, 'mpz_set_d')
    zset(cx, p, d2z(cx, d))


@g('clear')
def _(cx, p):
    zload(cx, p)
    p = cx.ex.toptr(cx.st, p)
    d = cx.ex.toptr(cx.st, cx.ex.load(cx.st, Ptr(p.r, cx.ex.add64(p.off, 8)), 8))
    cx.st.wreg(d.r).alive = False


@g('set')
def _(cx, p, q):
    zset(cx, p, zload(cx, q))


@g('set_si')
def _(cx, p, n):
    zset(cx, p, smt.sint(cx.ex.bv(n, 64)))


@g('set_ui')
def _(cx, p, n):
    zset(cx, p, smt.uint(cx.ex.bv(n, 64)))


@g('swap')
def _(cx, p, q):
    ex, st = cx.ex, cx.st
    zload(cx, p)
    zload(cx, q)
    p, q = ex.toptr(st, p), ex.toptr(st, q)
    for off, n in ((0, 4), (4, 4), (8, 8)):
        a = ex.load(st, Ptr(p.r, ex.add64(p.off, off)), n)
        b = ex.load(st, Ptr(q.r, ex.add64(q.off, off)), n)
        ex.store(st, Ptr(p.r, ex.add64(p.off, off)), n, b)
        ex.store(st, Ptr(q.r, ex.add64(q.off, off)), n, a)


def zbin(name, f):
    @g(name)
    def _(cx, r, a, b):
        zset(cx, r, f(zload(cx, a), zload(cx, b)))


zbin('add', lambda a, b: a + b)
zbin('sub', lambda a, b: a - b)
zbin('mul', lambda a, b: a * b)


@g('add_ui', 'sub_ui', 'mul_ui', 'ui_sub', 'mul_si')
def _(cx, r, a, b):
    k = cx.name[7:]
    if k == 'ui_sub':
        zset(cx, r, smt.uint(cx.ex.bv(a, 64)) - zload(cx, b))
        return
    y = (smt.sint if k == 'mul_si' else smt.uint)(cx.ex.bv(b, 64))
    x = zload(cx, a)
    zset(cx, r, {'add': x + y, 'sub': x - y, 'mul': x * y}[k[:3]])


@g('addmul', 'submul')
def _(cx, r, a, b):
    p = zload(cx, a) * zload(cx, b)
    x = zload(cx, r)
    zset(cx, r, x + p if cx.name.endswith('addmul') else x - p)


@g('neg')
def _(cx, r, a):
    zset(cx, r, -zload(cx, a))


@g('abs')
def _(cx, r, a):
    zset(cx, r, smt.absi(zload(cx, a)))


@g('com')
def _(cx, r, a):
    zset(cx, r, -1 - zload(cx, a))


def nz(cx, b):
    c = simp(b != 0)
    if is_c(c):
        if not c:
            raise UB('trap', 'GMP division by zero')
        return
    if not any(c.eq(d) for d in cx.st.pc if not isinstance(d, bool)):
        raise NeedCheck(c, 'GMP division by zero', 'trap')


def fqr(a, b):
    q, r = smt.tqr(a, b)
    adj = z3.And(r != 0, (r < 0) != (b < 0))
    return z3.If(adj, q - 1, q), z3.If(adj, r + b, r)


def cqr(a, b):
    q, r = smt.tqr(a, b)
    adj = z3.And(r != 0, (r < 0) == (b < 0))
    return z3.If(adj, q + 1, q), z3.If(adj, r - b, r)


QR = {'t': smt.tqr, 'f': fqr, 'c': cqr}


@g('tdiv_q', 'tdiv_r', 'fdiv_q', 'fdiv_r', 'cdiv_q', 'cdiv_r')
def _(cx, r, a, b):
    x, y = zload(cx, a), zload(cx, b)
    nz(cx, y)
    q, m = QR[cx.name[7]](x, y)
    zset(cx, r, q if cx.name.endswith('_q') else m)


@g('tdiv_qr', 'fdiv_qr', 'cdiv_qr')
def _(cx, q, r, a, b):
    x, y = zload(cx, a), zload(cx, b)
    nz(cx, y)
    qq, m = QR[cx.name[7]](x, y)
    zset(cx, q, qq)
    zset(cx, r, m)


@g('mod')
def _(cx, r, a, b):
    x, y = zload(cx, a), zload(cx, b)
    nz(cx, y)
    q, m = smt.tqr(x, y)
    zset(cx, r, z3.If(m < 0, m + smt.absi(y), m))


@g('divexact')
def _(cx, r, a, b):
    x, y = zload(cx, a), zload(cx, b)
    nz(cx, y)
    q, m = smt.tqr(x, y)
    cx.ex.require(cx.st, m == 0, 'mpz_divexact of a non-multiple')
    zset(cx, r, q)


def gcd_facts(a, b):
    t = smt.GCD(a, b)
    # attached through a ghost variable so that the facts travel with it
    k = z3.simplify(t).get_id()
    e = _gcd.get(k)
    if e is None:
        v = smt.fresh_int('gcd')
        smt.attach(v, v == t, v >= 0, z3.Implies(b == 0, t == smt.absi(a)), z3.Implies(a == 0, t == smt.absi(b)), z3.Implies(z3.Or(a != 0, b != 0), t > 0),
                   t == smt.GCD(b, a))
        e = (v, t)
        _gcd[k] = e
    return e[0]


_gcd = {}


@g('gcd')
def _(cx, r, a, b):
    zset(cx, r, gcd_facts(zload(cx, a), zload(cx, b)))


def cmpbv(lt, gt):
    b, i = smt.mk_int_bv('cmp', 32)
    smt.attach(i, (i < 0) == lt, (i > 0) == gt)
    return b


@g('cmp')
def _(cx, a, b):
    x, y = zload(cx, a), zload(cx, b)
    return cmpbv(x < y, x > y)


@g('cmpabs')
def _(cx, a, b):
    x, y = smt.absi(zload(cx, a)), smt.absi(zload(cx, b))
    return cmpbv(x < y, x > y)


@g('cmp_si')
def _(cx, a, n):
    x, y = zload(cx, a), smt.sint(cx.ex.bv(n, 64))
    return cmpbv(x < y, x > y)


@g('cmp_ui')
def _(cx, a, n):
    x, y = zload(cx, a), smt.uint(cx.ex.bv(n, 64))
    return cmpbv(x < y, x > y)


@g('cmp_d')
def _(cx, a, d):
    x = zload(cx, a)
    e = cx.ex.fp(('double',), d)
    ok = simp(z3.Not(z3.fpIsNaN(e)))
    if is_c(ok):
        if not ok:
            raise UB('trap', 'mpz_cmp_d with NaN traps')
    elif not any(ok.eq(c) for c in cx.st.pc if not isinstance(c, bool)):
        raise NeedCheck(ok, 'mpz_cmp_d with NaN traps', 'trap')
    t = CMPD(x, cx.ex.bv(d, 64))
    return cmpbv(t < 0, t > 0)


@g('sgn')
def _(cx, a):
    x = zload(cx, a)
    return cmpbv(x < 0, x > 0)


@g('get_si')
def _(cx, a):
    x = z3.simplify(zload(cx, a))
    if z3.is_int_value(x) and -(1 << 63) <= x.as_long() < 1 << 63:
        return x.as_long() & ((1 << 64) - 1)
    k = _gsi.get(x.get_id())
    if k is None:
        b, i = smt.mk_int_bv('getsi', 64)
        smt.attach(i, z3.Implies(z3.And(x >= -(1 << 63), x < (1 << 63)), i == x))
        k = (b, x)
        _gsi[x.get_id()] = k
    return k[0]


_gsi = {}
_gui = {}


@g('get_ui')
def _(cx, a):
    return lowlimb(zload(cx, a))


@g('get_d')
def _(cx, a):
    return Z2D(zload(cx, a))


FITS = {'slong': (-(1 << 63), (1 << 63) - 1), 'ulong': (0, (1 << 64) - 1), 'sint': (-(1 << 31), (1 << 31) - 1), 'uint': (0, (1 << 32) - 1), 'sshort': (-32768, 32767), 'ushort': (0, 65535)}


@g(*['fits_%s_p' % k for k in FITS])
def _(cx, a):
    lo, hi = FITS[cx.name[len('__gmpz_fits_'):-2]]
    x = zload(cx, a)
    return simp_i(z3.And(x >= lo, x <= hi))


def simp_i(c):
    b, i = smt.mk_int_bv('flag', 32)
    smt.attach(i, i == z3.If(c, 1, 0))
    return b


ZAND = z3.Function('zand', z3.IntSort(), z3.IntSort(), z3.IntSort())
ZIOR = z3.Function('zior', z3.IntSort(), z3.IntSort(), z3.IntSort())
ZXOR = z3.Function('zxor', z3.IntSort(), z3.IntSort(), z3.IntSort())


def zbit(F, unit, zero=None):
    """commutative bit operation on integers, with its unit"""
    def f(a, b):
        a, b = z3.simplify(a), z3.simplify(b)
        for x, y in ((a, b), (b, a)):
            if z3.is_int_value(x):
                if x.as_long() == unit:
                    return y
                if zero is not None and x.as_long() == zero:
                    return x
        c = a <= b
        r = F(z3.If(c, a, b), z3.If(c, b, a))
        return z3.If(a == unit, b, z3.If(b == unit, a, r))
    return f


zand = zbit(ZAND, -1, 0)
zior = zbit(ZIOR, 0, -1)
zxor = zbit(ZXOR, 0)
zbin('and', zand)
zbin('ior', zior)
zbin('xor', zxor)
POW2 = z3.Function('pow2', z3.IntSort(), z3.IntSort())
FSHR = z3.Function('fshr', z3.IntSort(), z3.IntSort(), z3.IntSort())
POPC = z3.Function('zpop', z3.IntSort(), z3.IntSort())
ILEN = z3.Function('zlen', z3.IntSort(), z3.IntSort())


@g('mul_2exp')
def _(cx, r, a, n):
    e = smt.uint(cx.ex.bv(n, 64))
    zset(cx, r, zload(cx, a) * pow2(e))


def pow2(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return z3.IntVal(1 << e.as_long())
    return POW2(e)


@g('fdiv_q_2exp')
def _(cx, r, a, n):
    zset(cx, r, FSHR(zload(cx, a), smt.uint(cx.ex.bv(n, 64))))


@g('tdiv_q_2exp')
def _(cx, r, a, n):
    x = zload(cx, a)
    e = smt.uint(cx.ex.bv(n, 64))
    zset(cx, r, z3.If(x >= 0, FSHR(x, e), -FSHR(-x, e)))


@g('popcount')
def _(cx, a):
    x = zload(cx, a)
    b, i = smt.mk_int_bv('popc', 64, False)
    smt.attach(i, z3.Implies(x >= 0, i == POPC(x)), z3.Implies(x < 0, i == (1 << 64) - 1), z3.Implies(x >= 0, i < (1 << 62)))
    return b


@g('sizeinbase')
def _(cx, a, base):
    x = zload(cx, a)
    b, i = smt.mk_int_bv('sizeinbase', 64, False)
    if base == 2:
        smt.attach(i, z3.Implies(x != 0, i == ILEN(smt.absi(x))), z3.Implies(x == 0, i == 1), i < (1 << 40))
    return b


ZPOW = z3.Function('zpow', z3.IntSort(), z3.IntSort(), z3.IntSort())


@g('pow_ui', 'ui_pow_ui')
def _(cx, r, a, n):
    x = smt.uint(cx.ex.bv(a, 64)) if 'ui_pow' in cx.name else zload(cx, a)
    zset(cx, r, zpow(x, smt.uint(cx.ex.bv(n, 64))))


def zpow(x, n):
    """x^n as an uninterpreted function with its elementary facts"""
    x, n = z3.simplify(x), z3.simplify(n)
    if z3.is_int_value(x) and x.as_long() == 1:
        return x
    if z3.is_int_value(n) and n.as_long() <= 8:
        r = z3.IntVal(1)
        for _ in range(n.as_long()):
            r = r * x
        return r
    t = ZPOW(x, n)
    v = smt.fresh_int('pow')
    smt.attach(v, v == t, z3.Implies(x != 0, v != 0), z3.Implies(n == 0, v == 1), z3.Implies(n == 1, v == x), z3.Implies(z3.And(x == 0, n > 0), v == 0), z3.Implies(x > 0, v > 0))
    return v


def isqrt(x):
    s = smt.fresh_int('isqrt')
    smt.attach(s, z3.Implies(x >= 0, z3.And(s >= 0, s * s <= x, x < (s + 1) * (s + 1))))
    return s


@g('rootrem')
def _(cx, s, r, a, n):
    if not (is_c(n) and n == 2):
        raise Unsupported('mpz_rootrem')
    x = zload(cx, a)
    c = simp(x >= 0)
    if not (is_c(c) and c) and not any(not isinstance(d, bool) and not is_c(c) and d.eq(c) for d in cx.st.pc):
        raise NeedCheck(x >= 0, 'even root of a negative number aborts', 'trap')
    q = isqrt(x)
    zset(cx, s, q)
    zset(cx, r, x - q * q)


@g('sqrtrem')
def _(cx, s, r, a):
    x = zload(cx, a)
    q = isqrt(x)
    zset(cx, s, q)
    zset(cx, r, x - q * q)


# ---- mpq: numerator at +0, denominator at +16
def qn(cx, p):
    return cx.ex.toptr(cx.st, p)


def qd(cx, p):
    p = cx.ex.toptr(cx.st, p)
    return Ptr(p.r, cx.ex.add64(p.off, 16))


def qload(cx, p):
    return zload(cx, qn(cx, p)), zload(cx, qd(cx, p))


COPRIME = z3.Function('coprime', z3.IntSort(), z3.IntSort(), z3.BoolSort())


def qfresh(num, den):
    """canonical (n, d) with n/d == num/den, den != 0"""
    num, den = z3.simplify(num), z3.simplify(den)
    if z3.is_int_value(num) and z3.is_int_value(den) and den.as_long() != 0:
        from fractions import Fraction
        f = Fraction(num.as_long(), den.as_long())
        return z3.IntVal(f.numerator), z3.IntVal(f.denominator)
    if z3.is_int_value(den) and den.as_long() == 1:
        return num, z3.IntVal(1)
    if (num.get_id(), den.get_id()) in CANON:
        return num, den
    k = _qf.get((num.get_id(), den.get_id()))
    if k is None:
        n, d = smt.fresh_int('qnum'), smt.fresh_int('qden')
        t, r = smt.tqr(num, den)
        fs = [z3.Implies(den != 0, z3.And(d >= 1, n * den == num * d, COPRIME(n, d), (d == 1) == (r == 0), z3.Implies(d == 1, n == t), z3.Implies(r == 0, n == t), (n == 0) == (num == 0)))]
        smt.attach(n, *fs)
        smt.attach(d, *fs)
        k = (n, d, num, den)
        _qf[(num.get_id(), den.get_id())] = k
    return k[0], k[1]


_qf = {}


def qset(cx, p, num, den):
    n, d = qfresh(num, den)
    zset(cx, qn(cx, p), n)
    zset(cx, qd(cx, p), d)


def q(*names):
    return GMP.c(*['__gmpq_' + n for n in names], cname='GMP mpq_' + '/'.join(names))


@q('init')
def _(cx, p):
    zinit(cx, qn(cx, p), 0)
    zinit(cx, qd(cx, p), 1)


@q('clear')
def _(cx, p):
    GMP.exact['__gmpz_clear'](cx, qn(cx, p))
    GMP.exact['__gmpz_clear'](cx, qd(cx, p))


@q('set')
def _(cx, p, a):
    n, d = qload(cx, a)
    zset(cx, qn(cx, p), n)
    zset(cx, qd(cx, p), d)


@q('swap')
def _(cx, a, b):
    GMP.exact['__gmpz_swap'](cx, qn(cx, a), qn(cx, b))
    GMP.exact['__gmpz_swap'](cx, qd(cx, a), qd(cx, b))


@q('canonicalize')
def _(cx, p):
    n, d = qload(cx, p)
    nz(cx, d)
    if z3.is_const(d) and d.decl().name().startswith('qden') and any(k[0].eq(n) and k[1].eq(d) for k in _qf.values()):
        return
    if d.decl().kind() == z3.Z3_OP_UNINTERPRETED and (n.get_id(), d.get_id()) in CANON:
        return
    qset(cx, p, n, d)


CANON = {}   # (n, d) pairs known canonical (inputs)


@q('set_si', 'set_ui')
def _(cx, p, n, d):
    f = smt.sint if cx.name.endswith('si') else smt.uint
    zset(cx, qn(cx, p), f(cx.ex.bv(n, 64)))
    zset(cx, qd(cx, p), smt.uint(cx.ex.bv(d, 64)))


@q('set_z')
def _(cx, p, a):
    zset(cx, qn(cx, p), zload(cx, a))
    zset(cx, qd(cx, p), 1)


@q('set_num')
def _(cx, p, a):
    zset(cx, qn(cx, p), zload(cx, a))


@q('set_den')
def _(cx, p, a):
    zset(cx, qd(cx, p), zload(cx, a))


@q('get_num')
def _(cx, a, p):
    zset(cx, a, zload(cx, qn(cx, p)))


@q('get_den')
def _(cx, a, p):
    zset(cx, a, zload(cx, qd(cx, p)))


DNUM = z3.Function('dnum', z3.BitVecSort(64), z3.IntSort())
DDEN = z3.Function('dden', z3.BitVecSort(64), z3.IntSort())


def dfacts(b):
    return [DDEN(b) >= 1, COPRIME(DNUM(b), DDEN(b))]


@q('set_d')
def _(cx, p, d):
    finite(cx, d, 'mpq_set_d')
    b = cx.ex.bv(d, 64)
    n, d = DNUM(b), DDEN(b)
    CANON[(n.get_id(), d.get_id())] = (n, d)       # the value of a double in lowest terms
    zset(cx, qn(cx, p), n)
    zset(cx, qd(cx, p), d)


Q2D = z3.Function('q2d', z3.IntSort(), z3.IntSort(), z3.BitVecSort(64))


@q('get_d')
def _(cx, p):
    n, d = qload(cx, p)
    return Q2D(n, d)


@q('add', 'sub', 'mul', 'div')
def _(cx, r, a, b):
    n1, d1 = qload(cx, a)
    n2, d2 = qload(cx, b)
    k = cx.name[-3:]
    if k == 'add':
        qset(cx, r, n1 * d2 + n2 * d1, d1 * d2)
    elif k == 'sub':
        qset(cx, r, n1 * d2 - n2 * d1, d1 * d2)
    elif k == 'mul':
        qset(cx, r, n1 * n2, d1 * d2)
    else:
        nz(cx, n2)
        qset(cx, r, n1 * d2, d1 * n2)


@q('neg')
def _(cx, r, a):
    n, d = qload(cx, a)
    zset(cx, qn(cx, r), -n)
    zset(cx, qd(cx, r), d)


@q('abs')
def _(cx, r, a):
    n, d = qload(cx, a)
    zset(cx, qn(cx, r), smt.absi(n))
    zset(cx, qd(cx, r), d)


@q('inv')
def _(cx, r, a):
    n, d = qload(cx, a)
    nz(cx, n)
    zset(cx, qn(cx, r), z3.If(n < 0, -d, d))
    zset(cx, qd(cx, r), smt.absi(n))


@q('cmp')
def _(cx, a, b):
    n1, d1 = qload(cx, a)
    n2, d2 = qload(cx, b)
    return cmpbv(n1 * d2 < n2 * d1, n1 * d2 > n2 * d1)


@q('equal')
def _(cx, a, b):
    n1, d1 = qload(cx, a)
    n2, d2 = qload(cx, b)
    return simp_i(n1 * d2 == n2 * d1)


@q('cmp_z')
def _(cx, a, b):
    n1, d1 = qload(cx, a)
    z = zload(cx, b)
    return cmpbv(n1 < z * d1, n1 > z * d1)


@q('cmp_si', 'cmp_ui')
def _(cx, a, n, d):
    n1, d1 = qload(cx, a)
    n2 = (smt.sint if cx.name.endswith('si') else smt.uint)(cx.ex.bv(n, 64))
    d2 = smt.uint(cx.ex.bv(d, 64))
    return cmpbv(n1 * d2 < n2 * d1, n1 * d2 > n2 * d1)


from .stream import IOS     # noqa: E402

BASE = [GMP, RT, GC, ERR, IOS, STR, TXT]
