"""Contracts of the C++ streams: a stream is a ghost sequence of bytes.

ghost['is'] = (bytes, open, position, flags)   input; `open`: more, unknown bytes follow
ghost['os'] = bytes                            output
flags: 1 bad, 2 eof, 4 fail (libstdc++'s ios_base::iostate)
"""
import z3
from . import sym
from .ext import Table, stdstring
from .sym import Ptr, is_c, Unsupported

IOS = Table()
IO = r'std::(?:__cxx11::)?basic_'
CH = r'<char(?:, std::char_traits<char>)?(?:, std::allocator<char>)?\s?>'


def vptr(cx, p, off):
    """a stream object whose virtual base is at `off`"""
    ex, st = cx.ex, cx.st
    v = ex.alloc(st, 64, 'stream vtable', 'heap')
    ex.store(st, Ptr(v, 8), 8, off)
    ex.store(st, p, 8, Ptr(v, 32))


def region(cx, p):
    p = cx.ex.toptr(cx.st, p)
    return p.r, cx.st.reg(p.r).ghost


def ins(cx, p):
    r, g = region(cx, p)
    if 'is' not in g:
        raise Unsupported('input stream of unknown contents')
    return r, g['is']


def sets(cx, r, v):
    cx.st.wreg(r).ghost['is'] = v


def outs(cx, p):
    r, g = region(cx, p)
    if 'os' not in g:
        raise Unsupported('output stream of unknown state')
    return r, g['os']


def emit(cx, p, bs):
    r, o = outs(cx, p)
    cx.st.wreg(r).ghost['os'] = o + tuple(bs)


@IOS.r('^' + IO + 'istringstream' + CH + r'::basic_istringstream\(', cname='std::istringstream')
def _(cx, p, *a):
    p = cx.ex.toptr(cx.st, p)
    vptr(cx, p, 120)
    bs = tuple(stdstring(cx, a[0])) if a and isinstance(a[0], Ptr) else ()
    cx.st.wreg(p.r).ghost['is'] = (bs, False, 0, 0)


@IOS.r('^' + IO + 'ostringstream' + CH + r'::basic_ostringstream\(', cname='std::ostringstream')
def _(cx, p, *a):
    p = cx.ex.toptr(cx.st, p)
    vptr(cx, p, 112)
    cx.st.wreg(p.r).ghost['os'] = ()


@IOS.r('^' + IO + r'stringstream' + CH + r'::basic_stringstream\(', cname='std::stringstream')
def _(cx, p, *a):
    p = cx.ex.toptr(cx.st, p)
    vptr(cx, p, 128)
    cx.st.wreg(p.r).ghost['os'] = ()


@IOS.r('^' + IO + '[io]?stringstream' + CH + r'::~basic_[io]?stringstream\(', cname='string stream destruction')
def _(cx, p, *a):
    return None


@IOS.r('^' + IO + '[io]?stringstream' + CH + r'::str\(\)', cname='std::stringstream::str')
def _(cx, sret, p):
    r, o = outs(cx, p)
    put_string(cx, sret, o)


def put_string(cx, p, bs):
    """lay out a std::string with the given bytes"""
    ex, st = cx.ex, cx.st
    p = ex.toptr(st, p)
    n = len(bs)
    if n < 16:
        b = Ptr(p.r, ex.add64(p.off, 16))
    else:
        b = Ptr(ex.alloc(st, n + 1, 'string storage', 'heap'), 0)
        ex.store(st, Ptr(p.r, ex.add64(p.off, 16)), 8, n)
    ex.store(st, p, 8, b)
    ex.store(st, Ptr(p.r, ex.add64(p.off, 8)), 8, n)
    for i, x in enumerate(list(bs) + [0]):
        ex.store(st, Ptr(b.r, ex.add64(b.off, i)), 1, x)


def byte(cx, x):
    """int_type of a char"""
    if is_c(x):
        return x & 0xff
    return z3.ZeroExt(24, x)


EOF = 0xffffffff


@IOS.r('^std::(basic_)?istream' + r'.*::peek\(\)', cname='std::istream::peek')
def _(cx, p):
    r, (bs, more, k, fl) = ins(cx, p)
    if fl:
        sets(cx, r, (bs, more, k, fl | 4))
        return EOF
    if k == len(bs):
        if more:
            raise Unsupported('reading past the specified part of a stream')
        sets(cx, r, (bs, more, k, fl | 2))
        return EOF
    return byte(cx, bs[k])


@IOS.r('^std::(basic_)?istream' + r'.*::get\(\)', cname='std::istream::get')
def _(cx, p):
    r, (bs, more, k, fl) = ins(cx, p)
    if fl:
        sets(cx, r, (bs, more, k, fl | 4))
        return EOF
    if k == len(bs):
        if more:
            raise Unsupported('reading past the specified part of a stream')
        sets(cx, r, (bs, more, k, fl | 6))
        return EOF
    sets(cx, r, (bs, more, k + 1, fl))
    return byte(cx, bs[k])


def count(cx, p, n):
    """gcount()"""
    p = cx.ex.toptr(cx.st, p)
    cx.ex.store(cx.st, Ptr(p.r, cx.ex.add64(p.off, 8)), 8, n)


@IOS.r('^std::(basic_)?istream' + r'.*::read\(char\*, long\)', cname='std::istream::read')
def _(cx, p, b, n):
    r, (bs, more, k, fl) = ins(cx, p)
    if fl:
        sets(cx, r, (bs, more, k, fl | 4))
        count(cx, p, 0)
        return p
    if not is_c(n):
        raise Unsupported('reading an unknown number of bytes')
    m = min(n, len(bs) - k)
    if m < n and more:
        raise Unsupported('reading past the specified part of a stream')
    b = cx.ex.toptr(cx.st, b)
    for i in range(m):
        cx.ex.store(cx.st, Ptr(b.r, cx.ex.add64(b.off, i)), 1, bs[k + i])
    sets(cx, r, (bs, more, k + m, fl | (6 if m < n else 0)))
    count(cx, p, m)
    return p


@IOS.r('^std::(basic_)?istream' + r'.*::putback\(char\)', '^std::(basic_)?istream' + r'.*::unget\(\)', cname='std::istream::putback')
def _(cx, p, *c):
    r, (bs, more, k, fl) = ins(cx, p)
    fl &= ~2
    if fl:
        sets(cx, r, (bs, more, k, fl | 4))
        return p
    if k == 0:
        sets(cx, r, (bs, more, k, fl | 1))
        return p
    if c:
        e = bs[k - 1] == c[0] if is_c(bs[k - 1]) and is_c(c[0]) else z3.simplify(cx.ex.bv(bs[k - 1], 8) == cx.ex.bv(c[0], 8))
        if e is not True and not (not isinstance(e, bool) and z3.is_true(e)):
            if e is not False and not z3.is_false(e) and not cx.ex.feasible(cx.st, z3.Not(e)):
                pass
            elif e is False or z3.is_false(e) or not cx.ex.feasible(cx.st, e):
                sets(cx, r, (bs, more, k, fl | 1))
                return p
            else:
                raise sym.NeedFork(e)
    sets(cx, r, (bs, more, k - 1, fl))
    return p


def flags(cx, p):
    r, g = region(cx, p)
    if 'is' in g:
        return g['is'][3]
    if 'os' in g:
        return 0
    raise Unsupported('state of an unknown stream')


BI = '^std::basic_ios' + CH


@IOS.r(BI + r'::operator bool\(\)', BI + r'::good\(\)', cname='std::ios state')
def _(cx, p):
    f = flags(cx, p)
    return int((f & 5) == 0)


@IOS.r(BI + r'::operator!\(\)', BI + r'::fail\(\)', cname='std::ios state')
def _(cx, p):
    return int((flags(cx, p) & 5) != 0)


@IOS.r(BI + r'::eof\(\)', cname='std::ios state')
def _(cx, p):
    return int((flags(cx, p) & 2) != 0)


@IOS.r(BI + r'::rdstate\(\)', cname='std::ios state')
def _(cx, p):
    return flags(cx, p)


# ---------------------------------------------------------------- output
OST = r'^std::basic_ostream' + CH + r'& std::operator<<\s?<'


@IOS.r(OST + r'.*\(std::basic_ostream' + CH + r'&, (std::string|std::__cxx11::basic_string<.*>) const&\)', cname='std::ostream << std::string')
def _(cx, os, s):
    emit(cx, os, stdstring(cx, s))
    return os


@IOS.r(OST + r'.*\(std::basic_ostream' + CH + r'&, char const\*\)', cname='std::ostream << char const*')
def _(cx, os, s):
    p = cx.ex.toptr(cx.st, s)
    bs = []
    while True:
        b = cx.ex.load(cx.st, Ptr(p.r, cx.ex.add64(p.off, len(bs))), 1)
        if is_c(b):
            if b == 0:
                break
        elif cx.ex.feasible(cx.st, b == 0):
            if cx.ex.feasible(cx.st, b != 0):
                raise sym.NeedFork(b == 0)
            break
        bs.append(b)
    emit(cx, os, bs)
    return os


@IOS.r(OST + r'.*\(std::basic_ostream' + CH + r'&, char\)', r'^std::(basic_)?ostream.*::put\(char\)', cname='std::ostream << char')
def _(cx, os, c):
    emit(cx, os, [c])
    return os


@IOS.r(r'^std::(basic_)?ostream.*::write\(char const\*, long\)', r'std::__ostream_insert<', cname='std::ostream::write')
def _(cx, os, s, n):
    if not is_c(n):
        raise Unsupported('writing an unknown number of bytes')
    p = cx.ex.toptr(cx.st, s)
    emit(cx, os, [cx.ex.load(cx.st, Ptr(p.r, cx.ex.add64(p.off, i)), 1) for i in range(n)])
    return os


@IOS.r(r'^std::(basic_)?ostream.*::flush\(\)', cname='std::ostream::flush')
def _(cx, os):
    return os


# ---------------------------------------------------------------- files
FS = Table()     # a file system with one file, whose contents are cx.ex.file = (bytes, more)


@FS.r(r'^std::filesystem::(__cxx11::)?path::~?path\(', r'^std::filesystem::canonical\(', r'^std::(?:__cxx11::)?basic_[io]fstream' + CH + r'::~basic_', cname='std::filesystem::path')
def _(cx, *a):
    return 0


@FS.r(r'> std::set<std::filesystem::(__cxx11::)?path,.*>::emplace<', cname='std::set<path>::emplace')
def _(cx, *a):
    return [0, 1]


@FS.r(r'^std::basic_ifstream' + CH + r'::basic_ifstream(<.*>)?\(', cname='std::ifstream')
def _(cx, p, *a):
    p = cx.ex.toptr(cx.st, p)
    vptr(cx, p, 256)
    bs, more = cx.ex.file
    g = cx.st.wreg(p.r).ghost
    if 'is' in g or 'os' in g:
        raise Unsupported('two streams in one object')
    g['is'] = (tuple(bs), more, 0, 0)
    g['open'] = True
    cx.ex.opened = p.r


@FS.r(r'^std::basic_ofstream' + CH + r'::basic_ofstream(<.*>)?\(', cname='std::ofstream')
def _(cx, p, *a):
    p = cx.ex.toptr(cx.st, p)
    vptr(cx, p, 248)
    g = cx.st.wreg(p.r).ghost
    g['os'] = ()
    g['open'] = True
    cx.ex.opened = p.r


@FS.r(r'^std::basic_[io]fstream' + CH + r'::close\(\)', cname='std::fstream::close')
def _(cx, p):
    r, g = region(cx, p)
    cx.st.wreg(r).ghost['open'] = False


@FS.r(r'^std::basic_[io]fstream' + CH + r'::is_open\(\)', cname='std::fstream::is_open')
def _(cx, p):
    return int(region(cx, p)[1]['open'])
