"""Solver layer: z3 (bit-vector / integer / mixed), cvc5 as second opinion on unknown.

A verification condition may mix machine words (bit-vectors) and mathematical
integers (ghost values of GMP numbers).  `check` first tries a pure bit-vector
or a pure integer form; the integer form is an exact translation with interval
analysis (no wrap-around is assumed: an operation whose interval does not fit
its width is translated with an explicit modulus).
"""
import itertools
import os
import subprocess
import tempfile
import time
import z3

z3.set_param('smt.random_seed', 1)
z3.set_param('sat.random_seed', 1)

STATS = {'queries': 0, 'time': 0.0, 'unknown': 0, 'cvc5': 0, 'by': {}}

_fresh = itertools.count()


def fresh(prefix, sort):
    return z3.FreshConst(sort, prefix)


def fresh_bv(prefix, n):
    return z3.BitVec('%s!%d' % (prefix, next(_fresh)), n)


def fresh_int(prefix):
    return z3.Int('%s!%d' % (prefix, next(_fresh)))


def fresh_bool(prefix):
    return z3.Bool('%s!%d' % (prefix, next(_fresh)))


# bv variable name -> (int term, signed, lo, hi)
MEANING = {}
# facts attached to ghost variables: name -> [facts]; pulled in when the variable occurs
FACTS = {}


def attach(var, *facts):
    FACTS.setdefault(var.decl().name(), []).extend(facts)


def meaning(bvvar, intterm, signed, lo, hi):
    MEANING[bvvar.decl().name()] = (intterm, signed, lo, hi)


def mk_int_bv(prefix, n, signed=True):
    """a symbolic machine integer with an Int companion; returns (bv, Int)"""
    b = fresh_bv(prefix, n)
    i = z3.Int(b.decl().name() + '.i')
    lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, (1 << n) - 1)
    MEANING[b.decl().name()] = (i, signed, lo, hi)
    attach(i, i >= lo, i <= hi)
    return b, i


class NoInt(Exception):
    pass


def s2u(i, lo, hi, n):
    """signed Int interp -> unsigned"""
    if lo >= 0:
        return i, lo, hi
    if hi < 0:
        return i + (1 << n), lo + (1 << n), hi + (1 << n)
    return z3.If(i < 0, i + (1 << n), i), 0, (1 << n) - 1


def u2s(i, lo, hi, n):
    h = 1 << (n - 1)
    if hi < h:
        return i, lo, hi
    if lo >= h:
        return i - (1 << n), lo - (1 << n), hi - (1 << n)
    return z3.If(i >= h, i - (1 << n), i), -h, h - 1


class IntTr:
    def __init__(self):
        self.cache = {}
        self.facts = []
        self.used = {}

    def bv(self, e, signed):
        k = (e.get_id(), signed)
        r = self.cache.get(k)
        if r is None:
            r = self._bv(e, signed)
            i, lo, hi = r
            self.cache[k] = (i, lo, hi, e)
            return r
        return r[:3]

    def fit(self, i, lo, hi, n, signed):
        """wrap Int i (with interval) into n bits"""
        M = 1 << n
        a, b = (-(M >> 1), (M >> 1) - 1) if signed else (0, M - 1)
        if a <= lo and hi <= b:
            return i, lo, hi
        if a - M <= lo and hi <= b + M:
            # one correction suffices
            t = i
            if hi > b:
                t = z3.If(i > b, i - M, t)
            if lo < a:
                t = z3.If(i < a, i + M, t)
            return t, a, b
        m = i % M
        if signed:
            return z3.If(m >= (M >> 1), m - M, m), a, b
        return m, a, b

    def _bv(self, e, signed):
        n = e.size()
        M = 1 << n
        k = e.decl().kind()
        Z = z3
        if Z.is_bv_value(e):
            v = e.as_signed_long() if signed else e.as_long()
            return Z.IntVal(v), v, v
        if k == Z.Z3_OP_UNINTERPRETED and e.num_args() == 0:
            nm = e.decl().name()
            if nm not in MEANING:
                i = z3.Int(nm + '.i')
                MEANING[nm] = (i, False, 0, M - 1)
                attach(i, i >= 0, i <= M - 1)
            i, s, lo, hi = MEANING[nm]
            self.used[nm] = e
            if s == signed:
                return i, lo, hi
            return (u2s if signed else s2u)(i, lo, hi, n)
        ch = e.children()
        if k == Z.Z3_OP_BADD:
            # choose domain
            t = Z.IntVal(0)
            lo = hi = 0
            for c in ch:
                i, l, h = self.bv(c, signed)
                t = i if lo == hi == 0 and Z.is_int_value(t) and t.as_long() == 0 else t + i
                lo += l
                hi += h
            if not (lo >= (-(M >> 1) if signed else 0) and hi <= ((M >> 1) - 1 if signed else M - 1)) and len(ch) == 2:
                # constant that is really negative: try the other reading
                for a, b in ((0, 1), (1, 0)):
                    if Z.is_bv_value(ch[a]):
                        c = ch[a].as_signed_long()
                        i, l, h = self.bv(ch[b], signed)
                        return self.fit(i + c, l + c, h + c, n, signed)
            return self.fit(t, lo, hi, n, signed)
        if k == Z.Z3_OP_BSUB:
            a = self.bv(ch[0], signed)
            b = self.bv(ch[1], signed)
            return self.fit(a[0] - b[0], a[1] - b[2], a[2] - b[1], n, signed)
        if k == Z.Z3_OP_BNEG:
            a = self.bv(ch[0], signed)
            return self.fit(-a[0], -a[2], -a[1], n, signed)
        if k == Z.Z3_OP_BMUL:
            i, lo, hi = self.bv(ch[0], signed)
            for c in ch[1:]:
                j, l, h = self.bv(c, signed)
                ps = [lo * l, lo * h, hi * l, hi * h]
                i = i * j
                lo, hi = min(ps), max(ps)
            return self.fit(i, lo, hi, n, signed)
        if k == Z.Z3_OP_SIGN_EXT:
            a = self.bv(ch[0], True)
            return a if signed else s2u(a[0], a[1], a[2], n)
        if k == Z.Z3_OP_ZERO_EXT:
            return self.bv(ch[0], False)
        if k == Z.Z3_OP_ITE:
            c = self.bool(ch[0])
            a = self.bv(ch[1], signed)
            b = self.bv(ch[2], signed)
            return Z.If(c, a[0], b[0]), min(a[1], b[1]), max(a[2], b[2])
        if k == Z.Z3_OP_EXTRACT:
            hi_b, lo_b = e.params()
            if lo_b == 0:
                # narrow: prefer a reading that fits
                for s in (signed, not signed):
                    a = self.bv(ch[0], s)
                    M2 = 1 << n
                    x, y = (-(M2 >> 1), (M2 >> 1) - 1) if signed else (0, M2 - 1)
                    if x <= a[1] and a[2] <= y:
                        return a
                a = self.bv(ch[0], signed)
                return self.fit(a[0], a[1], a[2], n, signed)
            a = self.bv(ch[0], False)
            q = a[0] / (1 << lo_b)
            return self.fit(q, a[1] >> lo_b, a[2] >> lo_b, n, signed)
        if k == Z.Z3_OP_CONCAT:
            b = sext_of(ch)
            if b is not None:
                a = self.bv(b, True)
                return a if signed else s2u(a[0], a[1], a[2], n)
            t = Z.IntVal(0)
            lo = hi = 0
            first = True
            for c in ch:
                a = self.bv(c, signed and first)
                first = False
                w = 1 << c.size()
                t = t * w + a[0] if not (Z.is_int_value(t) and t.as_long() == 0) else a[0]
                lo = lo * w + a[1]
                hi = hi * w + a[2]
            return self.fit(t, lo, hi, n, signed)
        if k in (Z.Z3_OP_BSDIV, Z.Z3_OP_BSDIV_I):
            a = self.bv(ch[0], True)
            b = self.bv(ch[1], True)
            if b[1] <= 0 <= b[2] and k == Z.Z3_OP_BSDIV:
                self.facts.append(None)  # division by zero excluded by an earlier obligation
            q = tqr(a[0], b[0])[0]
            m = max(abs(a[1]), abs(a[2]))
            r = self.fit(q, -m, m, n, True)
            return r if signed else s2u(r[0], r[1], r[2], n)
        if k in (Z.Z3_OP_BSREM, Z.Z3_OP_BSREM_I):
            a = self.bv(ch[0], True)
            b = self.bv(ch[1], True)
            r = tqr(a[0], b[0])[1]
            m = max(abs(b[1]), abs(b[2]))
            lo = -m if a[1] < 0 else 0
            hi = m if a[2] > 0 else 0
            r = (r, max(lo, -(M >> 1)), min(hi, (M >> 1) - 1))
            return r if signed else s2u(r[0], r[1], r[2], n)
        if k in (Z.Z3_OP_BUDIV, Z.Z3_OP_BUDIV_I, Z.Z3_OP_BUREM, Z.Z3_OP_BUREM_I):
            a = self.bv(ch[0], False)
            b = self.bv(ch[1], False)
            if k in (Z.Z3_OP_BUDIV, Z.Z3_OP_BUDIV_I):
                r = (a[0] / b[0], 0, a[2])
            else:
                r = (a[0] % b[0], 0, min(a[2], max(b[2] - 1, 0)))
            return r if not signed else u2s(r[0], r[1], r[2], n)
        if k == Z.Z3_OP_BSHL and Z.is_bv_value(ch[1]):
            s = ch[1].as_long()
            if s >= n:
                return Z.IntVal(0), 0, 0
            a = self.bv(ch[0], signed)
            return self.fit(a[0] * (1 << s), a[1] << s, a[2] << s, n, signed)
        if k == Z.Z3_OP_BLSHR and Z.is_bv_value(ch[1]):
            s = ch[1].as_long()
            if s >= n:
                return Z.IntVal(0), 0, 0
            a = self.bv(ch[0], False)
            r = (a[0] / (1 << s), a[1] >> s, a[2] >> s)
            return r if not signed else u2s(r[0], r[1], r[2], n)
        if k == Z.Z3_OP_BASHR and Z.is_bv_value(ch[1]):
            s = min(ch[1].as_long(), n - 1)
            a = self.bv(ch[0], True)
            r = (a[0] / (1 << s), a[1] >> s, a[2] >> s)
            return r if signed else s2u(r[0], r[1], r[2], n)
        if k == Z.Z3_OP_BAND and any(Z.is_bv_value(c) for c in ch) and len(ch) == 2:
            c, x = (ch[0], ch[1]) if Z.is_bv_value(ch[0]) else (ch[1], ch[0])
            m = c.as_long()
            if m & (m + 1) == 0:
                a = self.bv(x, False)
                r = self.fit(a[0], a[1], a[2], m.bit_length(), False) if m else (Z.IntVal(0), 0, 0)
                return r if not signed else u2s(r[0], r[1], r[2], n)
        if k == Z.Z3_OP_BNOT:
            if signed:
                a = self.bv(ch[0], True)
                return (-1 - a[0], -1 - a[2], -1 - a[1])
            a = self.bv(ch[0], False)
            return (M - 1 - a[0], M - 1 - a[2], M - 1 - a[1])
        if k == Z.Z3_OP_SELECT or True:
            raise NoInt(str(e.decl()))

    def bool(self, e):
        k = ('b', e.get_id())
        r = self.cache.get(k)
        if r is None:
            r = (self._bool(e), e)
            self.cache[k] = r
        return r[0]

    def _bool(self, e):
        Z = z3
        if Z.is_true(e) or Z.is_false(e):
            return e
        k = e.decl().kind()
        ch = e.children()
        if k == Z.Z3_OP_AND:
            return Z.And([self.bool(c) for c in ch])
        if k == Z.Z3_OP_OR:
            return Z.Or([self.bool(c) for c in ch])
        if k == Z.Z3_OP_NOT:
            return Z.Not(self.bool(ch[0]))
        if k == Z.Z3_OP_IMPLIES:
            return Z.Implies(self.bool(ch[0]), self.bool(ch[1]))
        if k == Z.Z3_OP_XOR:
            return Z.Xor(self.bool(ch[0]), self.bool(ch[1]))
        if k == Z.Z3_OP_ITE:
            return Z.If(*[self.bool(c) for c in ch])
        if k in (Z.Z3_OP_EQ, Z.Z3_OP_DISTINCT, Z.Z3_OP_IFF):
            a, b = ch[0], ch[1]
            if len(ch) > 2:
                raise NoInt('distinct')
            if Z.is_bv(a):
                r = self._eq(a, b)
            elif Z.is_bool(a):
                r = self.bool(a) == self.bool(b)
            elif Z.is_int(a) or Z.is_real(a):
                r = self.arith(a) == self.arith(b)
            elif a.sort().kind() in (Z.Z3_UNINTERPRETED_SORT, Z.Z3_DATATYPE_SORT):
                r = self.term(a) == self.term(b)
            else:
                raise NoInt('eq sort')
            return Z.Not(r) if k == Z.Z3_OP_DISTINCT else r
        if k in (Z.Z3_OP_SLEQ, Z.Z3_OP_SLT, Z.Z3_OP_SGEQ, Z.Z3_OP_SGT, Z.Z3_OP_ULEQ, Z.Z3_OP_ULT, Z.Z3_OP_UGEQ, Z.Z3_OP_UGT):
            s = k in (Z.Z3_OP_SLEQ, Z.Z3_OP_SLT, Z.Z3_OP_SGEQ, Z.Z3_OP_SGT)
            a = self.bv(ch[0], s)[0]
            b = self.bv(ch[1], s)[0]
            if k in (Z.Z3_OP_SLEQ, Z.Z3_OP_ULEQ):
                return a <= b
            if k in (Z.Z3_OP_SLT, Z.Z3_OP_ULT):
                return a < b
            if k in (Z.Z3_OP_SGEQ, Z.Z3_OP_UGEQ):
                return a >= b
            return a > b
        if k in (Z.Z3_OP_LE, Z.Z3_OP_LT, Z.Z3_OP_GE, Z.Z3_OP_GT):
            a, b = self.arith(ch[0]), self.arith(ch[1])
            return {Z.Z3_OP_LE: a <= b, Z.Z3_OP_LT: a < b, Z.Z3_OP_GE: a >= b, Z.Z3_OP_GT: a > b}[k]
        if k == Z.Z3_OP_UNINTERPRETED:
            if not ch:
                return e
            return e.decl()(*[self.term(c) for c in ch])
        if k == Z.Z3_OP_DT_IS or k == Z.Z3_OP_DT_RECOGNISER:
            return e.decl()(*[self.term(c) for c in ch])
        raise NoInt('bool %s' % e.decl())

    def _eq(self, a, b):
        # signed reading unless a side is plainly unsigned
        for s in (True, False):
            try:
                x = self.bv(a, s)
                y = self.bv(b, s)
                return x[0] == y[0]
            except NoInt:
                if not s:
                    raise
        raise NoInt('eq')

    def term(self, e):
        if z3.is_bv(e):
            raise NoInt('uf over bv')
        if z3.is_bool(e):
            return self.bool(e)
        if z3.is_int(e) or z3.is_real(e):
            return self.arith(e)
        if e.num_args() == 0:
            return e
        if e.sort().kind() in (z3.Z3_FLOATING_POINT_SORT, z3.Z3_ARRAY_SORT):
            raise NoInt('sort')
        return e.decl()(*[self.term(c) for c in e.children()])

    def arith(self, e):
        k = ('a', e.get_id())
        r = self.cache.get(k)
        if r is None:
            r = (self._arith(e), e)
            self.cache[k] = r
        return r[0]

    def _arith(self, e):
        Z = z3
        if e.num_args() == 0:
            return e
        k = e.decl().kind()
        ch = e.children()
        if k == Z.Z3_OP_BV2INT:
            return self.bv(ch[0], False)[0]
        if k == Z.Z3_OP_ITE:
            # signed bv2int pattern: If(x < 0, bv2int(x) - 2^n, bv2int(x))
            return Z.If(self.bool(ch[0]), self.arith(ch[1]), self.arith(ch[2]))
        if any(Z.is_bv(c) or Z.is_fp(c) for c in ch):
            raise NoInt(str(e.decl()))
        a = [self.term(c) for c in ch]
        if k == Z.Z3_OP_ADD:
            return Z.Sum(a)
        if k == Z.Z3_OP_MUL:
            return Z.Product(a)
        if k == Z.Z3_OP_UNINTERPRETED or k == Z.Z3_OP_DT_ACCESSOR:
            return e.decl()(*a)
        if k == Z.Z3_OP_SUB:
            r = a[0]
            for x in a[1:]:
                r = r - x
            return r
        if k == Z.Z3_OP_UMINUS:
            return -a[0]
        if k == Z.Z3_OP_IDIV:
            return a[0] / a[1]
        if k == Z.Z3_OP_DIV:
            return a[0] / a[1]
        if k == Z.Z3_OP_MOD:
            return a[0] % a[1]
        if k == Z.Z3_OP_TO_REAL:
            return Z.ToReal(a[0])
        if k == Z.Z3_OP_TO_INT:
            return Z.ToInt(a[0])
        raise NoInt(str(e.decl()))


def sext_of(ch):
    """x when the concatenation is the sign extension of x"""
    x = ch[-1]
    n = x.size()
    for c in ch[:-1]:
        while c.decl().kind() == z3.Z3_OP_REPEAT:
            c = c.arg(0)
        if c.decl().kind() != z3.Z3_OP_EXTRACT or c.params() != [n - 1, n - 1] or c.arg(0).get_id() != x.get_id():
            return None
    return x


# signed value of a bit-vector as an Int term; kept symbolic for IntTr
SBV = {}


def sint(e):
    """signed Int value of a BV expr (via the exact translation when possible)"""
    if isinstance(e, int):
        return z3.IntVal(e)
    try:
        return IntTr().bv(z3.simplify(e), True)[0]
    except NoInt:
        return z3.BV2Int(e, True)


def uint(e):
    if isinstance(e, int):
        return z3.IntVal(e)
    try:
        return IntTr().bv(z3.simplify(e), False)[0]
    except NoInt:
        return z3.BV2Int(e, False)


def tdiv(a, b):
    """truncating Int division"""
    return z3.If(a >= 0, z3.If(b > 0, a / b, -(a / (-b))), z3.If(b > 0, -((-a) / b), (-a) / (-b)))


def tmod(a, b):
    return z3.If(a >= 0, a % absi(b), -((-a) % absi(b)))


_tqr = {}


def tqr(a, b):
    """quotient and remainder of truncating division as ghost variables, axiomatised"""
    a = z3.simplify(a)
    b = z3.simplify(b)
    k = (a.get_id(), b.get_id())
    r = _tqr.get(k)
    if r is not None:
        return r[0], r[1]
    if z3.is_int_value(b) and b.as_long() != 0:
        q, m = tdiv(a, b), tmod(a, b)
        _tqr[k] = (q, m, a, b)
        return q, m
    q = fresh_int('quo')
    m = fresh_int('rem')
    ab = absi(b)
    fs = [z3.Implies(b != 0, z3.And(a == q * b + m, absi(m) < ab, z3.Or(m == 0, z3.And((m > 0) == (a > 0), (m < 0) == (a < 0)))))]
    for k2 in (-2, -1, 0, 1, 2):
        c = a - k2 * b
        fs.append(z3.Implies(z3.And(b != 0, absi(c) < ab, z3.Or(c == 0, z3.And((c > 0) == (a > 0), (c < 0) == (a < 0)))), z3.And(m == c, q == k2)))
    attach(q, *fs)
    attach(m, *fs)
    _tqr[k] = (q, m, a, b)
    return q, m


def tqr_hint(a, b, k):
    """an instance of the uniqueness of truncated division: a == k*b -> quotient k, remainder 0"""
    q, m = tqr(a, b)
    return z3.Implies(z3.And(b != 0, a == k * b), z3.And(q == k, m == 0))


GCD = z3.Function('gcd', z3.IntSort(), z3.IntSort(), z3.IntSort())


def absi(a):
    return z3.If(a < 0, -a, a)


def fdiv(a, b):
    """floor division for any sign of b (z3 div is Euclidean)"""
    return z3.If(b > 0, a / b, (-a) / (-b))


def fmod(a, b):
    return a - b * fdiv(a, b)


_collected = {}      # id -> (expression, result): conditions are collected again for every query on a path


def collect(es):
    """(has_bv, has_int, has_other, names)"""
    hb = hi = ho = False
    names = {}
    for e in es:
        c = _collected.get(e.get_id())
        if c is None:
            c = _collected[e.get_id()] = (e, collect_([e]))
        b, i, o, n = c[1]
        hb, hi, ho = hb or b, hi or i, ho or o
        names.update(n)
    return hb, hi, ho, names


def collect_(es):
    seen = set()
    names = {}
    st = list(es)
    has_bv = has_int = has_fp = has_arr = has_q = False
    while st:
        e = st.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(e):
            has_q = True
            st.append(e.body())
            continue
        if z3.is_bv(e):
            has_bv = True
        elif z3.is_int(e) or z3.is_real(e):
            has_int = True
        elif z3.is_fp(e):
            has_fp = True
        elif z3.is_array(e):
            has_arr = True
        if z3.is_app(e):
            if e.num_args() == 0 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                names[e.decl().name()] = e
            elif e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                names.setdefault(e.decl().name(), e)
            st.extend(e.children())
    return has_bv, has_int, has_fp or has_arr or has_q, names


def close_facts(es):
    """add the facts attached to every ghost variable that occurs"""
    out = list(es)
    done = set()
    work = list(es)
    while work:
        _, _, _, names = collect(work)
        work = []
        for nm in names:
            if nm in done:
                continue
            done.add(nm)
            for f in FACTS.get(nm, ()):
                out.append(f)
                work.append(f)
    return out


SAT, UNSAT, UNKNOWN = 'sat', 'unsat', 'unknown'


class Result:
    def __init__(self, status, model=None, how='', reason=''):
        self.status = status
        self.model = model
        self.how = how
        self.reason = reason


def _solve(fs, timeout, tactic=None):
    s = z3.Solver() if tactic is None else z3.Tactic(tactic).solver()
    s.set('timeout', int(timeout * 1000))
    s.add(fs)
    r = s.check()
    if r == z3.sat:
        return Result(SAT, s.model())
    if r == z3.unsat:
        return Result(UNSAT)
    return Result(UNKNOWN, reason=s.reason_unknown())


_cache = {}
_simplified = {}


def simplified(f):
    c = _simplified.get(f.get_id())
    if c is None:
        c = _simplified[f.get_id()] = (f, z3.simplify(f))
    return c[1]


def check(fs, timeout=20.0, use_cvc5=True):
    """satisfiability of the conjunction of fs"""
    t0 = time.time()
    STATS['queries'] += 1
    fs = [simplified(f) for f in fs]
    fs2 = []
    for f in fs:
        if z3.is_true(f):
            continue
        if z3.is_false(f):
            return Result(UNSAT, how='simplify')
        fs2.append(f)
    key = frozenset(f.get_id() for f in fs2)
    if key in _cache:
        return _cache[key][0]
    r = _check(fs2, timeout, use_cvc5)
    dt = time.time() - t0
    STATS['time'] += dt
    STATS['by'][r.how] = STATS['by'].get(r.how, 0) + 1
    if r.status == UNKNOWN:
        STATS['unknown'] += 1
    else:
        _cache[key] = (r, fs2)
    return r


def _check(fs, timeout, use_cvc5):
    fs = close_facts(fs)
    if not fs:
        r = _solve([], 1)
        r.how = 'trivial'
        return r
    has_bv, has_int, other, names = collect(fs)
    if has_bv and not has_int:
        # a word whose companion integer carries a contract's facts needs the integer reading
        for nm in names:
            if nm in MEANING and len(FACTS.get(MEANING[nm][0].decl().name(), ())) > 2:
                has_int = True
                break
    if has_bv and not has_int and not other:
        r = _solve(fs, timeout)
        r.how = 'z3-bv'
        if r.status != UNKNOWN or not use_cvc5:
            return r
        return cvc5(fs, timeout, r)
    if has_bv and has_int:
        try:
            tr = IntTr()
            gs = [tr.bool(f) for f in fs]
            gs = close_facts(gs)
            hb, hi, ho, _ = collect(gs)
            if not hb:
                r = _solve(gs, timeout)
                r.how = 'z3-int'
                r.tr = tr
                if r.status != UNKNOWN:
                    return r
                if use_cvc5:
                    r = cvc5(gs, timeout, r)
                    if r.status != UNKNOWN:
                        return r
        except NoInt:
            pass
        # mixed: link companions
        links = []
        _, _, _, names = collect(fs)
        for nm, e in names.items():
            if nm in MEANING and z3.is_bv(e):
                i, s, lo, hi = MEANING[nm]
                links.append(i == z3.BV2Int(e, s))
        r = _solve(close_facts(fs + links), timeout)
        r.how = 'z3-mixed'
        if r.status == UNKNOWN and use_cvc5:
            r = cvc5(close_facts(fs + links), timeout, r)
        return r
    r = _solve(fs, timeout)
    r.how = 'z3-int' if has_int else 'z3'
    if r.status == UNKNOWN and use_cvc5:
        return cvc5(fs, timeout, r)
    return r


def cvc5(fs, timeout, prev):
    """second back end: cvc5 on the SMT-LIB text"""
    try:
        s = z3.Solver()
        s.add(fs)
        txt = s.to_smt2()
        STATS['cvc5'] += 1
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write('(set-logic ALL)\n' + txt)
        try:
            p = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000), '--nl-ext-tplanes', f.name], capture_output=True, text=True, timeout=timeout + 10)
        finally:
            os.unlink(f.name)
        out = p.stdout.strip().split('\n')[0]
        if out == 'unsat':
            return Result(UNSAT, how='cvc5')
        # a cvc5 'sat' has no z3 model object to replay: leave undecided unless z3 confirms
    except Exception:
        pass
    prev.how = prev.how + '?'
    return prev
