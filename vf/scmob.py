"""Obligations on the Scheme part: a library procedure (or a program over it) is run by the evaluator
on arbitrary objects and unknown procedures, on every path; its result, the calls it makes and what
it changes must be those of the specification.  A failed path is replayed as a Scheme program."""
import itertools
import re
import time
import traceback
from fractions import Fraction
import z3
from . import scm, scmprim, build, replay
from .scm import (S, Sym, NIL, UNSPEC, EOF, Pair, Char, Str, Vec, Atom, Err, Unk, N, Z, Closure, Prim, Cont, SchemeError, Thrown, Unsupported,
                  Infeasible, Tail, lst, items, explore, Reader, MISSING)


class Raises(Exception):
    """the specification: an error is raised"""

    def __init__(self, obj=None):
        self.obj = obj


ANYV = object()
_M = [None, None]


def machine():
    if _M[0] is None and _M[1] is None:
        try:
            _M[0] = scmprim.machine(build.REPO)
        except Exception:
            _M[1] = traceback.format_exc()[-600:]
    if _M[0] is None:
        raise Unsupported('the library sources could not be read: %s' % _M[1])
    return _M[0]


class B:
    """builds arguments"""

    def __init__(self, run, conc=None):
        self.run = run
        self.conc = conc
        self.unks = []
        self.ints = []

    def atom(self, n):
        return Atom(n)

    def atoms(self, n, p='x'):
        return [Atom('%s%d' % (p, i)) for i in range(n)]

    def list(self, n, p='x', tail=NIL):
        return lst(self.atoms(n, p), tail)

    def pred(self, n='p', traced=True):
        u = Unk(n, pred=True, traced=traced)
        self.unks.append(u)
        return u

    def fun(self, n='f', fn=None, traced=True):
        u = Unk(n, fn=fn, traced=traced)
        self.unks.append(u)
        return u

    def int(self, n):
        if self.conc is not None:
            return self.conc[n]
        self.ints.append(n)
        return N(z3.Int(n))

    def z(self, n):
        """an integer given by its bits"""
        if self.conc is not None:
            return self.conc[n]
        f = z3.Function(n + '.bit', z3.IntSort(), z3.BoolSort())
        return Z(lambda i: f(i), z3.Bool(n + '.neg'))


class Names:
    def __init__(self):
        self.bind = []
        self.seen = {}


def datum(run, x):
    """source of a constant"""
    if x is True:
        return '#t'
    if x is False:
        return '#f'
    if isinstance(x, Atom):
        return run.find(x).name
    if isinstance(x, (Sym,)):
        return x.name
    if isinstance(x, (int, Fraction, float)):
        return str(x)
    if isinstance(x, Char):
        return '#\\' + x.c if x.c.isalnum() else '#\\x%x' % ord(x.c)
    if isinstance(x, Str):
        return '"%s"' % ''.join(c if isinstance(c, str) else datum(run, c) for c in x.cs)
    if isinstance(x, Vec):
        return '#%s(%s)' % (x.kind, ' '.join(datum(run, y) for y in x.xs))
    if x is NIL:
        return '()'
    if isinstance(x, Pair):
        o, n = [], 0
        while isinstance(x, Pair):
            o.append(datum(run, x.car))
            x = x.cdr
            n += 1
            if n > 100:
                raise NoSource('circular')
        return '(%s%s)' % (' '.join(o), '' if x is NIL else ' . ' + datum(run, x))
    raise NoSource(repr(x))


class NoSource(Exception):
    pass


def source(run, x, nm):
    """an expression making x afresh; nm binds shared objects"""
    if isinstance(x, Unk):
        return x.name
    if isinstance(x, Pair):
        if id(x) in nm.seen:
            return nm.seen[id(x)]
        a = source(run, x.car, nm)
        d = source(run, x.cdr, nm)
        v = '%%v%d' % len(nm.seen)
        nm.seen[id(x)] = v
        nm.bind.append((v, '(cons %s %s)' % (a, d)))
        return v
    if isinstance(x, Vec) and x.kind == '':
        if id(x) in nm.seen:
            return nm.seen[id(x)]
        v = '%%v%d' % len(nm.seen)
        nm.seen[id(x)] = v
        nm.bind.append((v, '(vector %s)' % ' '.join(source(run, y, nm) for y in x.xs)))
        return v
    if isinstance(x, Str):
        return '(string %s)' % ' '.join(datum(run, c) if not isinstance(c, str) else datum(run, Char(c)) for c in x.cs)
    if isinstance(x, Vec):
        return '(bytevector %s)' % ' '.join(datum(run, y) for y in x.xs)
    d = datum(run, x)
    return d if isinstance(x, (int, Fraction, bool, Char)) else "'" + d


def canon(run, x):
    return run.canon(x)


def outcome(f):
    try:
        return ('value', f())
    except Raises as e:
        return ('raise', e.obj)
    except Thrown as e:
        return ('raise', e.obj)
    except SchemeError as e:
        return ('raise', e.obj)


class SOb:
    call = None
    all_src = False
    prelude = ''
    opts = {}

    def __init__(self, lib, fn, build, spec, name=None, level='bounded', trace='order', frame=True, multi=False, imports=None, note='', expr=None, post=None, grid=None,
                 program=None, after=None, oracle=None, limit=4000):
        self.lib, self.fn, self.build, self.spec = lib, fn, build, spec
        self.name = name or fn
        self.level, self.trace, self.frame, self.multi = level, trace, frame, multi
        self.imports = imports or (replay.IMPORTS + ('' if lib in replay.IMPORTS else ' ' + lib))
        self.note = note
        self.expr = expr
        self.post = post
        self.grid = grid
        self.program = program
        self.after = after
        self.oracle = oracle
        self.limit = limit
        self.extra = []

    # ------------------------------------------------------------ one path
    def proc(self, M):
        if self.program:
            x = Reader(self.program).read()
            return M.program(self.lib, x)
        return M.get(self.lib, self.fn)

    def go(self, run, code=True):
        b = B(run)
        args = self.build(b)
        res = {'args': args, 'unks': b.unks}
        before = [run.canon(a) for a in args]
        res['orig'] = [scm.copy(a) for a in args]
        names = Names()
        try:
            res['srcs'] = [source(run, a, names) for a in args]
            res['names'] = names
        except NoSource:
            res['srcs'] = None
        want = None
        if self.spec:
            want = outcome(lambda: self.spec(run, *args))
            if want[0] == 'value' and want[1] is not ANYV:
                res['wantdatum'] = want[1]
            res['want'] = want
            res['wtrace'] = run.trace
            run.trace = []
        if not code:
            return res
        M = machine()
        try:
            p = self.proc(M)
        except (SchemeError, Thrown) as e:
            raise Unsupported('the library cannot be loaded: %s' % (e.obj,))
        if self.multi:
            cwv = M.get('(scheme r5rs)', 'call-with-values')
            got = outcome(lambda: M.call(run, cwv, [Prim('thunk', lambda r, a: Tail(p, args)), Prim('list', lambda r, a: lst(a))]))
        else:
            got = outcome(lambda: M.call(run, p, args))
        res['got'] = got
        goals = []
        if self.spec:
            if got[0] != want[0]:
                goals.append(('the result', False, 'wanted %s, got %s %s' % (want[0] if want[0] == 'raise' else scm.show(want[1]), got[0], scm.show(got[1]))))
            elif want[0] == 'value' and want[1] is not ANYV:
                goals.append(('the result', same(run, got[1], want[1]), 'wanted %s, got %s' % (scm.show(want[1]), scm.show(got[1]))))
            elif want[0] == 'raise' and want[1] is not None:
                goals.append(('the object raised', same(run, got[1], want[1]), 'wanted %s, got %s' % (scm.show(want[1]), scm.show(got[1]))))
            else:
                goals.append(('the result', True, ''))
            if self.trace:
                a, c = ctrace(run, run.trace), ctrace(run, res['wtrace'])
                if self.trace == 'any':
                    a, c = sorted(map(repr, a)), sorted(map(repr, c))
                goals.append(('the calls it makes', a == c, 'wanted %s, got %s' % (stext(res['wtrace']), stext(run.trace))))
            if self.frame:
                goals.append(('its arguments are unchanged', before == [run.canon(a) for a in args], 'now %s' % ' '.join(scm.show(a) for a in args)))
            if self.after:
                goals += self.after(run, args, got)
        if self.post:
            if got[0] == 'value':
                goals += [g if len(g) == 3 else g + ('',) for g in self.post(run, args, got[1])]
            else:
                goals.append(('no error', False, scm.show(got[1])))
        res['goals'] = goals
        return res

    def verify(self):
        t0 = time.time()
        r = {'ob': self.name, 'fn': self.fn, 'vcs': [], 'failed': [], 'undecided': '', 'outs': 0, 'level': self.level}
        n = 0
        try:
            for run, res in explore(self.go, self.limit):
                n += 1
                for label, g, note in res['goals']:
                    self.vc(r, label, run, g, note, res)
            if not n:
                raise Unsupported('vacuous: no path')
        except Unsupported as e:
            r['undecided'] = 'unsupported: %s' % e
        except RecursionError:
            r['undecided'] = 'recursion depth of the evaluator'
        except Exception:
            r['undecided'] = 'evaluator error: %s' % traceback.format_exc()[-1200:]
        r['outs'] = n
        r['time'] = time.time() - t0
        r['trusted'] = sorted('native %s' % x for x in (_M[0].prims_used if _M[0] else ()))
        r['inlined'] = sorted(_M[0].closures_used) if _M[0] else []
        return r

    def vc(self, r, label, run, g, note, res):
        t = time.time()
        if isinstance(g, bool):
            ok = g
            how = 'symbolic evaluation'
            if not g and run.pc and run.sat(z3.BoolVal(True)) == z3.unsat:
                ok = True
        else:
            how = 'z3'
            s = z3.Solver()
            s.set('timeout', 60000)
            s.add(*run.pc)
            s.add(z3.Not(g))
            c = s.check()
            if c == z3.unknown:
                r['vcs'].append((label, 'unknown', how, time.time() - t))
                r['undecided'] = r['undecided'] or 'solver gave no answer on: %s' % label
                return
            ok = c == z3.unsat
            if not ok:
                note = '%s; counterexample %s' % (note, s.model())
                run.model = s.model()
        r['vcs'].append((label, 'discharged' if ok else 'failed', how, time.time() - t))
        if not ok and len(r['failed']) < 12:
            prog = None
            try:
                prog = self.text(run, res)
            except NoSource:
                pass
            r['failed'].append({'label': label, 'args': [scm.show(a) for a in res['args']], 'note': note[:400], 'goal': '', 'prog': prog,
                                'model': [(n, run.model.eval(z3.Int(n), model_completion=True).as_long()) for n in self.intnames()] if getattr(run, 'model', None) else None})

    def intnames(self):
        b = B(scm.Run())
        self.build(b)
        return b.ints

    # ------------------------------------------------------------ replay
    def text(self, run, res):
        """a program that is #t exactly when the path behaves as specified"""
        if not self.spec or res.get('srcs') is None:
            raise NoSource('')
        nm = res['names']
        b = ["(%t '())"]
        for u in res['unks']:
            table = []
            for (fn, key), (f, args, v) in run.calls.items():
                if f.name == u.name:
                    table.append('(%s . %s)' % (datum(run, lst(args)), datum(run, v)))
            rec = "(set! %%t (cons (cons '%s xs) %%t)) " % u.name if u.traced else ''
            b.append("(%s (lambda xs %s(let ((%%x (assoc xs '(%s)))) (if %%x (cdr %%x) 'unexpected-call))))" % (u.name, rec, ' '.join(table)))
        b += ['(%s %s)' % (v, e) for v, e in nm.bind]
        b += ['(%%a%d %s)' % (i, s) for i, s in enumerate(res['srcs'])]
        vs = ['%%a%d' % i for i in range(len(res['args']))]
        c = self.expr(vs) if self.expr else '(%s %s)' % (self.program or self.fn, ' '.join(vs))
        if self.multi:
            c = '(call-with-values (lambda () %s) list)' % c
        want = res['want']
        if want[0] == 'raise':
            return "(let* (%s) (eq? 'raised (call-with-current-continuation (lambda (%%k) (with-exception-handler (lambda (%%e) (%%k 'raised)) (lambda () %s))))))" % (' '.join(b), c)
        got, exp = ['%r'], []
        if want[1] is ANYV:
            got = []
        else:
            exp.append(datum(run, want[1]))
        if self.trace == 'order':
            got.append('(reverse %t)')
            exp.append(datum(run, lst([lst([S(e[0])] + [y for y in e[1:]]) for e in res['wtrace']])))
        if self.frame:
            for i, a in enumerate(res['args']):
                if not isinstance(a, Unk):
                    got.append('%%a%d' % i)
                    exp.append(datum(run, res['orig'][i]))
        return "(let* (%s) (let ((%%r %s)) (equal? (list %s) '(%s))))" % (' '.join(b), c, ' '.join(got), ' '.join(exp))

    def replay(self, failed, seed=1, limit=3000, only_first=False):
        todo = []
        for f in failed:
            if f.get('prog'):
                todo.append((f['prog'], True))
        todo += [(e, w) for e, w in self.extra]
        if self.grid and self.oracle:
            cases = []
            for f in failed:
                if f.get('model'):
                    cases.append(dict(f['model']))
            cases += list(self.grid())[:limit]
            for c in cases:
                try:
                    args = self.build(B(scm.Run(), c))
                    w = self.oracle(*args)
                except (ZeroDivisionError, AssertionError, ValueError):
                    continue
                e = '(%s %s)' % (self.fn, ' '.join(str(a) for a in args))
                if self.multi:
                    e = '(call-with-values (lambda () %s) list)' % e
                    w = list(w)
                todo.append((e, w))
        if not todo or not failed:
            # the specification's own paths
            try:
                for run, res in itertools.islice(explore(lambda run: self.go(run, code=False), self.limit), 300):
                    try:
                        todo.append((self.text(run, res), True))
                    except NoSource:
                        pass
            except Unsupported:
                pass
        if not todo:
            return [], 0
        from .oblig import same as dsame
        out = replay.run([e for e, _ in todo], self.imports)
        bad = []
        for (e, w), g in zip(todo, out):
            if g is None:
                continue
            ok = w(g) if callable(w) else dsame(g, w)
            if not ok:
                bad.append(((), e, g, w))
        return bad, len(todo)


def ctrace(run, tr):
    return [(e[0],) + tuple(run.canon(y) for y in e[1:]) for e in tr]


def stext(tr):
    return ' '.join('(%s %s)' % (e[0], ' '.join(scm.show(y) for y in e[1:])) for e in tr)


def same(run, a, b):
    """bool or term: a and b are equal as data (procedures by identity)"""
    if isinstance(a, N) or isinstance(b, N):
        if not (scmprim.isnum(a) and scmprim.isnum(b)) or isinstance(a, float) or isinstance(b, float):
            return False
        (n, d), (m, e) = scmprim.t(a), scmprim.t(b)
        return z3.simplify(n * e == m * d)
    if isinstance(a, Z) or isinstance(b, Z):
        if not (isinstance(a, (int, Z)) and isinstance(b, (int, Z))):
            return False
        a, b = scmprim.toz(a), scmprim.toz(b)
        i = z3.Int('i?')
        return z3.And(a.neg == b.neg, z3.Implies(i >= 0, a.bit(i) == b.bit(i)))
    if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef):
        if not isinstance(a, (bool, z3.BoolRef)) or not isinstance(b, (bool, z3.BoolRef)):
            return False
        return z3.simplify(a == b)
    if isinstance(a, Pair) and isinstance(b, Pair):
        gs = []
        k = 0
        while isinstance(a, Pair) and isinstance(b, Pair) and k < 1000:
            gs.append(same(run, a.car, b.car))
            a, b = a.cdr, b.cdr
            k += 1
        gs.append(same(run, a, b))
        if any(g is False for g in gs):
            return False
        ts = [g for g in gs if g is not True]
        return z3.And(*ts) if ts else True
    if isinstance(a, Vec) and isinstance(b, Vec):
        return a.kind == b.kind and len(a.xs) == len(b.xs) and same(run, lst(a.xs), lst(b.xs))
    if isinstance(a, Str) and isinstance(b, Str):
        return [run.canon(scmprim.chr_(x)) for x in a.cs] == [run.canon(scmprim.chr_(x)) for x in b.cs]
    if isinstance(a, Err) and isinstance(b, Err):
        return b.msg is None or a is b
    if isinstance(a, Char) or isinstance(b, Char):
        return isinstance(a, Char) and isinstance(b, Char) and a.c == b.c
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    return run.canon(a) == run.canon(b)
