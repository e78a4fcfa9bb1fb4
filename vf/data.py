"""Concrete Scheme data on the Python side: source text, parsing of replayed results."""
import math
import struct
from fractions import Fraction


class Flo:
    """an inexact real, compared bit for bit (every NaN alike)"""
    __slots__ = ('bits',)

    def __init__(self, x):
        self.bits = x if isinstance(x, int) else struct.unpack('<Q', struct.pack('<d', x))[0]

    @property
    def v(self):
        return struct.unpack('<d', struct.pack('<Q', self.bits))[0]

    def __eq__(self, o):
        return isinstance(o, Flo) and (self.bits == o.bits or (math.isnan(self.v) and math.isnan(o.v)))

    def __hash__(self):
        return hash(self.bits)

    def __repr__(self):
        return 'Flo(%r)' % self.v


class Cpx:
    def __init__(self, re, im):
        self.re, self.im = re, im

    def __eq__(self, o):
        return isinstance(o, Cpx) and same(self.re, o.re) and same(self.im, o.im)

    def __hash__(self):
        return 7

    def __repr__(self):
        return 'Cpx(%r,%r)' % (self.re, self.im)


class Char:
    def __init__(self, cp):
        self.cp = cp

    def __eq__(self, o):
        return isinstance(o, Char) and o.cp == self.cp

    def __hash__(self):
        return hash(self.cp) + 1

    def __repr__(self):
        return 'Char(%#x)' % self.cp


class Sym:
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Sym) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "'" + self.name


class Pair:
    def __init__(self, car, cdr):
        self.car, self.cdr = car, cdr

    def __eq__(self, o):
        return isinstance(o, Pair) and same(self.car, o.car) and same(self.cdr, o.cdr)

    def __hash__(self):
        return 11

    def __repr__(self):
        return '(%r . %r)' % (self.car, self.cdr)


class Nil_:
    def __repr__(self):
        return '()'


Nil = Nil_()


class Str:
    def __init__(self, cps):
        self.cps = [ord(c) if isinstance(c, str) else c for c in cps]

    def __eq__(self, o):
        return isinstance(o, Str) and o.cps == self.cps

    def __hash__(self):
        return 13

    def __repr__(self):
        return 'Str(%r)' % self.cps


class Vec:
    def __init__(self, xs):
        self.xs = list(xs)

    def __eq__(self, o):
        return isinstance(o, Vec) and len(o.xs) == len(self.xs) and all(same(a, b) for a, b in zip(o.xs, self.xs))

    def __hash__(self):
        return 17

    def __repr__(self):
        return 'Vec(%r)' % self.xs


class Bytes:
    def __init__(self, b):
        self.b = bytes(b)

    def __eq__(self, o):
        return isinstance(o, Bytes) and o.b == self.b

    def __hash__(self):
        return 19

    def __repr__(self):
        return 'Bytes(%r)' % self.b


class Err:
    """the call raised an error"""

    def __eq__(self, o):
        return isinstance(o, Err)

    def __hash__(self):
        return 23

    def __repr__(self):
        return 'Err'


class Crash:
    def __init__(self, note=''):
        self.note = note

    def __eq__(self, o):
        return isinstance(o, Crash)

    def __hash__(self):
        return 29

    def __repr__(self):
        return 'Crash(%s)' % self.note


class Other:
    def __init__(self, t=''):
        self.t = t

    def __eq__(self, o):
        return isinstance(o, Other) and o.t == self.t

    def __hash__(self):
        return 31

    def __repr__(self):
        return 'Other(%s)' % self.t


class Raw:
    """a datum given by the expression that makes it"""

    def __init__(self, src, kind=None):
        self.src = src
        self.kind = kind

    def __repr__(self):
        return self.src


class Any:
    """oracle: no requirement"""

    def __repr__(self):
        return 'Any'


ANY = Any()


def same(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
        return a == b
    if type(a) is not type(b):
        return False
    if a is Nil:
        return b is Nil
    return a == b


def plist(xs, tail=Nil):
    r = tail
    for x in reversed(list(xs)):
        r = Pair(x, r)
    return r


def unlist(p):
    out = []
    while isinstance(p, Pair):
        out.append(p.car)
        p = p.cdr
    return out, p


def norm(q):
    q = Fraction(q)
    return q.numerator if q.denominator == 1 else q


def src(d):
    """Scheme expression that evaluates to d (built without relying on literals where they are fragile)"""
    if isinstance(d, Raw):
        return d.src
    if d is True:
        return '#t'
    if d is False:
        return '#f'
    if isinstance(d, int):
        return str(d)
    if isinstance(d, Fraction):
        return '%d/%d' % (d.numerator, d.denominator) if d.denominator != 1 else str(d.numerator)
    if isinstance(d, Flo):
        v = d.v
        if math.isnan(v):
            return '+nan.0'
        if math.isinf(v):
            return '+inf.0' if v > 0 else '-inf.0'
        if v == 0:
            return '0.0' if math.copysign(1, v) > 0 else '-0.0'
        if abs(v) < 2.3e-308:
            m, e = math.frexp(v)
            return '(* %r %s)' % (math.ldexp(m, 100 + e), repr(2.0 ** -100))
        r = repr(v)
        return r
    if isinstance(d, Cpx):
        return '(make-rectangular %s %s)' % (src(d.re), src(d.im))
    if isinstance(d, Char):
        return '(integer->char %d)' % d.cp
    if isinstance(d, Sym):
        return "'" + d.name
    if d is Nil:
        return "'()"
    if isinstance(d, Pair):
        return '(cons %s %s)' % (src(d.car), src(d.cdr))
    if isinstance(d, Str):
        return '(string%s)' % ''.join(' ' + src(Char(c)) for c in d.cps)
    if isinstance(d, Vec):
        return '(vector%s)' % ''.join(' ' + src(c) for c in d.xs)
    if isinstance(d, Bytes):
        return '(bytevector%s)' % ''.join(' %d' % c for c in d.b)
    raise ValueError(d)


PRELUDE = '''
(define (%enc x)
  (cond ((null? x) "n")
        ((eq? x #t) "t")
        ((eq? x #f) "f")
        ((pair? x) (list "p" (%enc (car x)) (%enc (cdr x))))
        ((number? x) (if (exact? x) (list "e" x) (if (real? x) (list "d" x) (list "z" (%enc (real-part x)) (%enc (imag-part x))))))
        ((char? x) (list "c" (char->integer x)))
        ((string? x) (cons "s" (map char->integer (string->list x))))
        ((symbol? x) (cons "y" (map char->integer (string->list (symbol->string x)))))
        ((vector? x) (cons "v" (map %enc (vector->list x))))
        ((bytevector? x) (cons "b" (%bytes x 0)))
        ((eof-object? x) "eof")
        ((procedure? x) "proc")
        (else "other")))
(define (%bytes x i) (if (< i (bytevector-length x)) (cons (bytevector-u8-ref x i) (%bytes x (+ i 1))) '()))
(define (%run n thunk)
  (write n) (display " ")
  (write (call-with-current-continuation
    (lambda (k)
      (with-exception-handler
        (lambda (e) (k "err"))
        (lambda () (%enc (thunk)))))))
  (newline) (flush-output-port (current-output-port)))
'''


def parse(t):
    toks = t.replace('(', ' ( ').replace(')', ' ) ').split()
    pos = [0]

    def rd():
        x = toks[pos[0]]
        pos[0] += 1
        if x == '(':
            out = []
            while toks[pos[0]] != ')':
                out.append(rd())
            pos[0] += 1
            return out
        return x
    return dec(rd())


def num(t):
    if '/' in t:
        a, b = t.split('/')
        return norm(Fraction(int(a), int(b)))
    return int(t)


def flo(t):
    return Flo(float(t.replace('+nan.0', 'nan').replace('-nan.0', 'nan').replace('inf.0', 'inf')))


def dec(x):
    if isinstance(x, str):
        x = x.strip('"')
        if x == 'n':
            return Nil
        if x == 't':
            return True
        if x == 'f':
            return False
        if x == 'err':
            return Err()
        return Other(x)
    k = x[0].strip('"')
    if k == 'p':
        return Pair(dec(x[1]), dec(x[2]))
    if k == 'e':
        return num(x[1])
    if k == 'd':
        return flo(x[1])
    if k == 'z':
        return Cpx(dec(x[1]), dec(x[2]))
    if k == 'c':
        return Char(int(x[1]))
    if k == 's':
        return Str([int(a) for a in x[1:]])
    if k == 'y':
        return Sym(''.join(chr(int(a)) for a in x[1:]))
    if k == 'v':
        return Vec([dec(a) for a in x[1:]])
    if k == 'b':
        return Bytes([int(a) for a in x[1:]])
    return Other(k)
