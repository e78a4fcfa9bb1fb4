"""Obligations: a function of /repo under a contract, its verification conditions,
and what happens when one does not discharge."""
import itertools
import multiprocessing as mp
import os
import random
import signal
import struct
import time
import traceback
from fractions import Fraction
import z3
from . import smt, sym, ext, world, data, replay
from .data import ANY, Err, Crash, Flo, same, src, norm
from .sym import Unsupported

VC_TIMEOUT = float(os.environ.get('VF_VC_TIMEOUT', '20'))
OB_TIMEOUT = float(os.environ.get('VF_OB_TIMEOUT', '150'))
JOBS = int(os.environ.get('VF_JOBS', str(os.cpu_count() or 4)))


# ---------------------------------------------------------------- argument kinds
def kconst(n):
    def f(W, nm):
        return Num(n)
    f.label, f.grid = 'k=%d' % n, [n]
    return f


def mk(W, k, nm):
    v = mk_(W, k, nm)
    W.__dict__.setdefault('built', []).append(v)
    return v


def mk_(W, k, nm):
    if callable(k):
        return k(W, nm)
    if k == 'T':
        return W.tail(nm)
    if k == 'k':
        return Num(smt.fresh_bv(nm, 64))
    if k == 'w':
        return W.small(nm)
    if k == 's':
        return W.small(nm)
    if k == 'l':
        return W.large(nm)
    if k == 'r':
        return W.ratio(nm)
    if k == 'd':
        return W.double(nm)
    if k == 'f':
        return W.float_(nm)
    if k == 'c':
        return W.char(nm)
    if k == 'b':
        return W.boolean(nm)
    if k == 'n':
        return W.null()
    if k == 'o':
        return W.opaque(nm)
    if isinstance(k, int):
        return W.small_c(k) if -(1 << 31) <= k < 1 << 31 else W.large_c(k)
    raise ValueError(k)


class Num:
    """a machine integer argument"""
    kind = 'num'

    def __init__(self, w):
        self.w = w


SMALLS = [0, 1, -1, 2, -2, 3, -3, 4, -5, 6, 7, -7, 8, 10, 12, -13, 31, 32, -32, 33, 63, 64, 100, 255, 256, 1000, -1000, 46340, 46341, -46341, 65535, 65536, 2**30, -2**30, 2**31 - 1, 2**31 - 2, -2**31, -2**31 + 1, 123456789, -987654321]
LARGES = [2**31, -2**31 - 1, 2**32, -2**32, 2**32 + 1, 2**53, 2**53 + 1, 2**62, 2**63 - 1, 2**63, -2**63, -2**63 - 1, 2**64, 2**64 - 1, -2**64, 10**18, 10**20, -10**20, 10**40 + 7, -(10**40) - 9, 2**128, 2**128 - 1, -2**127, 3**50, -(7**33), 2**31 * 2**31, (2**31) * 3]
RATIOS = [Fraction(a, b) for a, b in [(1, 2), (-1, 2), (1, 3), (2, 3), (-2, 3), (3, 2), (-3, 2), (5, 2), (7, 2), (-7, 2), (7, 3), (10, 7), (-10, 7), (22, 7), (1, 1000), (2**31, 3), (1, 2**31), (2**64, 3), (-1, 2**64 + 1), (10**20, 3), (2**31 - 1, 2**31), (2**63, 2**63 - 1), (3, 4), (1, 4), (9, 4)]]
RATIOS += [Fraction(2 * x + sg, 2) for x in (2**31, -2**31 - 1, 2**53 + 1, 2**63, 10**20, 2**128 - 1, 3**50) for sg in (1, -1)] + [x + Fraction(1, 3) for x in (2**53, 2**64, -10**20, 10**18)]
FLOATS = [2.0**32, 2.0**53 + 2, -2.0**53, 2.0**63, 2.0**64, 1e18, -1e20, 3.0**50, 1 / 3, 2.0**128, 2147483647.5, 2.0**-1074, 2.2250738585072014e-308, 0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 2.0, 2.5, -2.5, 3.0, 3.5, 0.1, 1e10, -1e10, 2.0**31, 2.0**53, 1e100, -1e100, 1e-100, 1e300, 1e-300, float('inf'), float('-inf'), float('nan')]


def grid(k):
    if k == 's':
        return SMALLS
    if k == 'l':
        return LARGES
    if k == 'r':
        return RATIOS
    if k in ('d', 'f'):
        return [Flo(x) for x in FLOATS]
    if k == 'b':
        return [False, True]
    if k == 'n':
        return [data.Nil]
    if k == 'c':
        return [data.Char(c) for c in (0, 1, 9, 10, 32, 48, 57, 65, 90, 97, 122, 127, 128, 0xe9, 0x7ff, 0x800, 0x3bb, 0x39b, 0xffff, 0x10000, 0x1f600, 0x10ffff)]
    if k == 'o':
        return [data.Sym('a'), data.Sym('b')]
    if isinstance(k, int):
        return [k]
    if hasattr(k, 'grid'):
        return k.grid
    return None


def ev(m, e):
    return m.eval(e, model_completion=True)


def conc_int(m, v):
    if v.__dict__.get('bv') is not None and not z3.is_bv_value(v.bv):
        ds = {d.name() for d in m.decls()}
        if v.bv.decl().name() in ds and v.i.decl().name() not in ds:
            return ev(m, v.bv).as_signed_long()
    return ev(m, v.i).as_long()


def concrete(m, v):
    """the Python datum denoted by input v in model m"""
    k = v.kind
    if k == 'num':
        return v.w if isinstance(v.w, int) else ev(m, v.w).as_long()
    if k in ('small', 'large'):
        n = conc_int(m, v)
        if k == 'large' and -2**31 <= n < 2**31:
            raise NoConcrete('%d is not a large integer' % n)
        return n
    if k == 'ratio':
        n, d = ev(m, v.n).as_long(), ev(m, v.d).as_long()
        q = Fraction(n, d)
        if q.denominator == 1:
            raise NoConcrete('%d/%d not a ratio' % (n, d))
        return q
    if k == 'double':
        return Flo(ev(m, v.bits).as_long())
    if k == 'float':
        return Flo(struct.unpack('<f', struct.pack('<I', ev(m, v.bits).as_long()))[0])
    if k == 'bool':
        return bool(v.b) if isinstance(v.b, int) else bool(ev(m, v.b).as_long())
    if k == 'char':
        return data.Char(v.cp if isinstance(v.cp, int) else ev(m, v.cp).as_long())
    if k == 'null':
        return data.Nil
    if k == 'opaque':
        return data.Sym(v.name.split('!')[0])
    if k == 'pair':
        return data.Pair(concrete(m, v.car), concrete(m, v.cdr))
    if k == 'string':
        return data.Str([c.cp if isinstance(c.cp, int) else ev(m, c.cp).as_long() for c in v.chars])
    if k == 'vector':
        return data.Vec([concrete(m, x) for x in v.items])
    if k == 'complex':
        return data.Cpx(concrete(m, v.re), concrete(m, v.im))
    raise NoConcrete(k)


class NoConcrete(Exception):
    pass


class Ob:
    """One function under contract for one shape of arguments."""

    def __init__(self, fn, kinds, post, oracle=None, pre=None, err=None, expr=None, name=None, frame=True,
                 imports=None, prelude='', grid=None, level='proof', call='prim', all_src=False, opts=None, setup=None, note='', raw=False):
        self.fn = fn
        self.kinds = kinds
        self.post = post
        self.oracle = oracle
        self.pre = pre
        self.err = err
        self.expr = expr or (lambda xs: '(m:%s%s)' % (fn, ''.join(' ' + src(x) for x in xs)))
        self.name = name or '%s %s' % (fn, ' '.join(k if isinstance(k, str) else getattr(k, 'label', str(k)) for k in kinds))
        self.frame = frame
        self.imports = imports or replay.PRIMS
        self.prelude = prelude
        self.grid_ = grid
        self.level = level
        self.call = call
        self.all_src = all_src
        self.opts = opts or {}
        self.setup = setup
        self.note = note
        self.raw = raw

    # -------------------------------------------------------- symbolic part
    def verify(self):
        t0 = time.time()
        r = {'ob': self.name, 'fn': self.fn, 'vcs': [], 'failed': [], 'undecided': '', 'outs': 0, 'level': self.level}
        try:
            self._verify(r)
        except Unsupported as e:
            r['undecided'] = 'unsupported: %s' % e
        except (sym.Limit,) as e:
            r['undecided'] = 'limit: %s' % e
        except RecursionError:
            r['undecided'] = 'recursion depth of the generator'
        except Exception as e:      # a defect of the machinery or code it was never meant for
            r['undecided'] = 'generator error: %s' % traceback.format_exc()[-1500:]
        r['time'] = time.time() - t0
        r['stats'] = {k: v for k, v in smt.STATS.items()}
        return r

    def world(self):
        W = world.World(**self.opts)
        if self.setup:
            self.setup(W)
        return W

    def prepare(self, W, args):
        pass

    def _verify(self, r):
        W = self.world()
        args = [mk(W, k, 'x%d' % i) for i, k in enumerate(self.kinds)]
        if self.pre is not None:
            for c in aslist(self.pre(*args)):
                W.st.assume(c)
        self.prepare(W, args)
        self.snap = snapshot(W, args)
        outs = W.prim(self.fn, args) if self.call == 'prim' else W.call(self.call, args)
        r['outs'] = len(outs)
        r['inlined'] = sorted(str(x) for x in W.ex.inlined)
        r['trusted'] = sorted(str(x) for x in W.ex.used_contracts)
        rets = 0
        for o in outs:
            err = self.err(*args) if self.err else None
            if o.kind == 'ret':
                for st, v in ([(o.state, o.word)] if self.raw else W.decode(o.state, o.word)):
                    rets += 1
                    if err is True:
                        self.vc(r, 'no-error-missed', st, False, args)
                        continue
                    if err is not None and err is not False:
                        self.vc(r, 'no-error-missed', st, z3.Not(err), args)
                    goals = self.post(W, st, args, v)
                    for lab, g in goals:
                        self.vc(r, lab, st, g, args)
                    if self.frame:
                        for lab, g in frame(W, st, args, self.snap):
                            self.vc(r, lab, st, g, args)
            elif o.kind == 'throw':
                self.vc(r, 'error only where specified', o.state, err if err is not None else False, args, note=str(o.note))
            elif o.kind in ('ub', 'trap', 'unreachable', 'exit'):
                self.vc(r, '%s: %s' % (o.kind, str(o.note)[:200]), o.state, False, args)
            elif o.kind in ('bound', 'unsupported'):
                raise Unsupported('%s %s' % (o.kind, o.note))
            else:
                raise Unsupported('outcome %s' % o.kind)
        # vacuity: some outcome must be reachable
        live = False
        for o in outs:
            q = smt.check(list(o.state.pc), timeout=3, use_cvc5=False)
            if q.status != smt.UNSAT:
                live = True
                break
        if not live:
            raise Unsupported('vacuous: no outcome reachable')

    def vc(self, r, label, st, goal, args, note=''):
        t = time.time()
        if goal is True:
            r['vcs'].append((label, 'discharged', 'syntactic', 0.0))
            return
        if isinstance(goal, bool):
            fs = list(st.pc)
        else:
            fs = list(st.pc) + [z3.Not(goal)]
        q = smt.check(fs, timeout=VC_TIMEOUT)
        dt = time.time() - t
        if q.status == smt.UNSAT:
            r['vcs'].append((label, 'discharged', q.how, dt))
            return
        if q.status == smt.UNKNOWN:
            r['vcs'].append((label, 'unknown', q.how, dt))
            r['undecided'] = r['undecided'] or 'solver gave no answer on: %s' % label
            return
        r['vcs'].append((label, 'failed', q.how, dt))
        try:
            xs = [concrete(q.model, a) for a in args]
        except NoConcrete:
            xs = None
        except Exception:
            xs = None
        r['failed'].append({'label': label, 'args': xs, 'note': note, 'goal': str(goal)[:600]})

    # -------------------------------------------------------- concrete part
    def candidates(self, failed, seed, limit):
        """argument tuples to try on the real code"""
        first = []
        for f in failed:
            if f['args'] is not None:
                first.append(tuple(f['args']))
        gs = [grid(k) for k in self.kinds] if self.grid_ is None else None
        rest = []
        if self.grid_ is not None:
            rest = [tuple(x) for x in (self.grid_() if callable(self.grid_) else self.grid_)]
        elif all(g is not None for g in gs):
            n = 1
            for g in gs:
                n *= len(g)
            if n <= limit:
                rest = list(itertools.product(*gs))
            else:
                rnd = random.Random(seed)
                rest = [tuple(rnd.choice(g) for g in gs) for _ in range(limit)]
        return first, rest

    def replay(self, failed, seed=1, limit=3000, only_first=False):
        """run candidates on the real interpreter against the oracle; [(args, expr, got, want)]"""
        if self.oracle is None:
            return [], 0
        key = getattr(self, 'replay_key', None)
        if key is not None:
            if key not in REPLAYED:
                REPLAYED[key] = self.replay_(failed, seed, limit, only_first)
            return REPLAYED[key]
        return self.replay_(failed, seed, limit, only_first)

    def replay_(self, failed, seed, limit, only_first):
        first, rest = self.candidates(failed, seed, limit)
        todo = []
        for xs in first + ([] if only_first else rest):
            try:
                w = self.oracle(*xs)
            except data_skip:
                continue
            if w is ANY:
                continue
            todo.append((xs, self.expr(xs), w))
        if not todo:
            return [], 0
        res = replay.run([t[1] for t in todo], self.imports, self.prelude)
        bad = []
        for (xs, e, w), g in zip(todo, res):
            if g is None:
                continue
            ok = w(g) if callable(w) else same(g, w)
            if not ok:
                bad.append((xs, e, g, w))
        return bad, len(todo)

class Seq(Ob):
    """A sequence of primitives: steps = [(fn, [reference])], a reference is ('x', i), an input, ('r', i), the result of step i, or an integer.
    post(W, st, args, results): obligations on the words of all results."""

    def __init__(self, name, kinds, steps, post, **kw):
        super().__init__('+'.join(dict.fromkeys(f for f, a in steps)), kinds, post, name=name, raw=True, frame=False, call='', **kw)
        self.steps = steps

    def _verify(self, r):
        W = self.world()
        args = [mk(W, k, 'x%d' % i) for i, k in enumerate(self.kinds)]
        if self.pre is not None:
            for c in aslist(self.pre(*args)):
                W.st.assume(c)
        self.prepare(W, args)
        live = [(W.st, [])]
        for fn, refs in self.steps:
            nxt = []
            for st, rs in live:
                W.st = st
                xs = [self.arg(W, args, rs, q) for q in refs]
                for o in W.prim(fn, xs):
                    r['outs'] += 1
                    if o.kind == 'ret':
                        nxt.append((o.state, rs + [o.word]))
                    elif o.kind in ('throw', 'ub', 'trap', 'unreachable', 'exit'):
                        self.vc(r, '%s in %s: %s' % (o.kind, fn, str(o.note)[:200]), o.state, False, args)
                    else:
                        raise Unsupported('%s %s' % (o.kind, o.note))
            live = nxt
        r['inlined'] = sorted(str(x) for x in W.ex.inlined)
        r['trusted'] = sorted(str(x) for x in W.ex.used_contracts)
        ok = False
        for st, rs in live:
            W.st = st
            ok = ok or smt.check(list(st.pc), timeout=3, use_cvc5=False).status != smt.UNSAT
            for lab, g in self.post(W, st, args, rs):
                self.vc(r, lab, st, g, args)
        if not ok and not r['failed']:
            raise Unsupported('vacuous: no outcome reachable')

    def arg(self, W, args, rs, q):
        if isinstance(q, tuple) and q[0] == 'x':
            return args[q[1]]
        if isinstance(q, tuple) and q[0] == 'r':
            return world.Val('word', rs[q[1]])
        return mk(W, q, 'c')


REPLAYED = {}     # results shared by obligations that are replayed on the same inputs
data_skip = (ZeroDivisionError, OverflowError)


def aslist(x):
    if x is None:
        return []
    return list(x) if isinstance(x, (list, tuple)) else [x]


# ---------------------------------------------------------------- frame: the arguments are not modified
def snapshot(W, args):
    return None


def walk(v, seen=None):
    seen = set() if seen is None else seen
    if id(v) in seen:
        return
    seen.add(id(v))
    yield v
    if v.kind == 'pair':
        yield from walk(v.car, seen)
        yield from walk(v.cdr, seen)
    elif v.kind == 'vector':
        for x in v.items:
            yield from walk(x, seen)


def frame(W, st, args, snap):
    out = []
    seen = set()
    for a in args:
        for v in walk(a):
            if id(v) in seen:
                continue
            seen.add(id(v))
            out += frame1(W, st, v)
    return out


def weq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    a = a if not isinstance(a, int) else z3.BitVecVal(a, b.size())
    b = b if not isinstance(b, int) else z3.BitVecVal(b, a.size())
    return z3.simplify(a == b)


def ieq(a, b):
    if a is b:
        return True
    g = z3.simplify(a == b)
    return True if z3.is_true(g) else g


def frame1(W, st, v):
    ex = W.ex
    if v.kind == 'pair' and v.__dict__.get('mutable'):
        return []
    if v.kind in ('large', 'ratio', 'pair', 'vector', 'string'):
        s = W.slot(v.w, st)
        n = W.decode1(st, s, v.w, v.kind)
        if v.kind == 'large':
            return [('argument unchanged', ieq(n.i, v.i))]
        if v.kind == 'ratio':
            return [('argument unchanged', ieq(n.n, v.n)), ('argument unchanged', ieq(n.d, v.d))]
        if v.kind == 'pair':
            return [('argument unchanged', weqs(W, n.car_w, v.car.w)), ('argument unchanged', weqs(W, n.cdr_w, v.cdr.w))]
        if v.kind == 'string':
            if not isinstance(n.size, int) or n.size != len(v.chars):
                return [('argument unchanged', False)]
            return [('argument unchanged', weqs(W, a, b.cp, 32)) for a, b in zip(n.cps, v.chars)]
        if v.kind == 'vector':
            if not isinstance(n.size, int) or n.size != len(v.items):
                return [('argument unchanged', False)]
            return [('argument unchanged', weqs(W, a, b.w)) for a, b in zip(n.words, v.items)]
    return []


def weqs(W, a, b, n=64):
    g = z3.simplify(W.ex.bv(a, n) == W.ex.bv(b, n))
    return True if z3.is_true(g) else (False if z3.is_false(g) else g)


# ---------------------------------------------------------------- running many
def _child(ob, conn):
    try:
        os.setpgid(0, 0)
    except OSError:
        pass
    try:
        r = ob.verify()
    except BaseException as e:
        r = {'ob': ob.name, 'fn': ob.fn, 'vcs': [], 'failed': [], 'undecided': 'crash %r' % e, 'outs': 0, 'time': 0, 'level': ob.level}
    try:
        conn.send(r)
    except Exception as e:
        conn.send({'ob': ob.name, 'fn': ob.fn, 'vcs': [], 'failed': [], 'undecided': 'result not transferable %r' % e, 'outs': 0, 'time': 0, 'level': ob.level})
    conn.close()
    os._exit(0)


def run_all(obs, jobs=JOBS, ob_timeout=OB_TIMEOUT, budget=600, progress=None):
    """verify every obligation in a process of its own; {name: result}"""
    ctx = mp.get_context('fork')
    t0 = time.time()
    todo = list(obs)
    todo.reverse()
    live = {}
    res = {}
    while todo or live:
        while todo and len(live) < jobs and time.time() - t0 < budget:
            ob = todo.pop()
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(ob, b))
            p.start()
            b.close()
            live[p.pid] = (p, a, ob, time.time())
        if todo and time.time() - t0 >= budget:
            for ob in todo:
                res[ob.name] = {'ob': ob.name, 'fn': ob.fn, 'vcs': [], 'failed': [], 'undecided': 'time budget of the check', 'outs': 0, 'time': 0, 'level': ob.level}
            todo = []
        mp.connection.wait([c for _, c, _, _ in live.values()], timeout=0.5)
        for pid in list(live):
            p, c, ob, ts = live[pid]
            if c.poll():
                try:
                    r = c.recv()
                except EOFError:
                    r = {'ob': ob.name, 'fn': ob.fn, 'vcs': [], 'failed': [], 'undecided': 'verifier process died', 'outs': 0, 'time': time.time() - ts, 'level': ob.level}
                res[ob.name] = r
                p.join()
                del live[pid]
                if progress:
                    progress(r)
            elif not p.is_alive():
                res[ob.name] = {'ob': ob.name, 'fn': ob.fn, 'vcs': [], 'failed': [], 'undecided': 'verifier process died', 'outs': 0, 'time': time.time() - ts, 'level': ob.level}
                del live[pid]
            elif time.time() - ts > ob_timeout or time.time() - t0 > budget + 60:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    p.kill()
                p.join()
                res[ob.name] = {'ob': ob.name, 'fn': ob.fn, 'vcs': [], 'failed': [], 'undecided': 'time limit of the obligation', 'outs': 0, 'time': time.time() - ts, 'level': ob.level}
                del live[pid]
    return res
