"""Decide one property: verify every obligation, replay what fails, write the evidence."""
import json
import os
import re
import sys
import time
import traceback
from . import build, smt, oblig, replay, data, world

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known():
    p = os.path.join(HERE, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r'finding: property=(\S+) match=`([^`]*)` (.*)', ln)
            if m:
                out.append((m.group(1), m.group(2), m.group(3).strip()))
    return out


def check(prop, tier, seed, spec, only=None, verbose=False):
    t0 = time.time()
    lines = []
    viol = []      # (kind, text)
    undecided = []
    bounded = []
    notes = []
    res = {}
    obs = []
    replays = 0
    try:
        # the obligations are generated from the code as compiled right now
        obs = spec['obs'](tier)
        if only:
            obs = [o for o in obs if re.search(only, o.name)]
        names = set()
        for o in obs:
            n, k = o.name, 2
            while o.name in names:
                o.name = '%s #%d' % (n, k)
                k += 1
            names.add(o.name)
        prog = None
        builderr = None
        try:
            if any(o.call is not None for o in obs):
                spec.get('load', load)(obs)
        except build.BuildError as e:
            builderr = 'the verified sources do not compile under clang: %s' % str(e)[-400:]
        except Exception as e:
            builderr = 'the verified sources could not be read: %s' % traceback.format_exc()[-600:]
        if builderr is None:
            def progress(r):
                if verbose:
                    st = 'UNDECIDED ' + r['undecided'] if r['undecided'] else ('FAILED' if r['failed'] else 'ok')
                    print('  %-40s %s vcs=%d %.1fs' % (r['ob'], st[:300], len(r['vcs']), r['time']), flush=True)
            res = oblig.run_all(obs, budget=450 if tier == 'quick' else 700, progress=progress)
        else:
            res = {o.name: {'ob': o.name, 'fn': o.fn, 'vcs': [], 'failed': [], 'undecided': builderr, 'outs': 0, 'time': 0, 'level': o.level} for o in obs}
    except Exception:
        print('INTERNAL ' + traceback.format_exc())
        return 2
    lem = None
    if spec.get('lemmas'):
        lem = lemmas(spec['lemmas'])
        notes.append(lem)
    # ---- failed obligations: replay on the real code
    bad = [o for o in obs if res[o.name]['failed']]
    und = [o for o in obs if res[o.name]['undecided'] and not res[o.name]['failed']]
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    t_replay = time.time()

    def write(o, name, body):
        p = os.path.join(HERE, 'evidence', 'replay', '%s-%s.txt' % (prop, re.sub(r'[^A-Za-z0-9]+', '_', name)[:60] + '-' + hex(abs(hash(name)) % 65536)[2:]))
        with open(p, 'w') as f:
            f.write(body)
        return p
    confirmed = set()
    for o in bad + und:
        r = res[o.name]
        if viol and time.time() - t_replay > 200:
            break
        try:
            b, n = o.replay(r['failed'], seed=seed, limit=2500 if tier == 'quick' else 20000)
        except Exception as e:
            b, n = [], 0
            notes.append('replay of %s not possible: %s' % (o.name, str(e)[-300:]))
        replays += n
        if b:
            xs, e, g, w = b[0]
            body = 'property %s, obligation: %s\n' % (prop, o.name)
            if r['failed']:
                body += 'failed verification conditions:\n' + ''.join('  %s %s\n    %s\n' % (f['label'], f['note'], f['goal']) for f in r['failed'])
            else:
                body += 'obligation undecided (%s); bounded stand-in on %d inputs\n' % (r['undecided'], n)
            body += 'replayed on the interpreter built from the current tree\n'
            for xs, e, g, w in b[:10]:
                body += '  %s\n    evaluated to %r\n    expected     %s\n' % (e, g, w if not callable(w) else getattr(w, 'label', 'see DESIGN.md'))
            body += '\nscript:\n' + replay.script([e], o.imports, o.prelude)
            viol.append((o.name, write(o, o.name, body), '', '%s => %r' % (b[0][1], b[0][2])))
            confirmed.add(o.name)
        elif r['failed']:
            body = 'property %s, obligation: %s\nfailed verification conditions (no failing input reproduced on %d inputs):\n' % (prop, o.name, n)
            body += ''.join('  %s %s\n    inputs of the counterexample: %s\n    %s\n' % (f['label'], f['note'], f['args'], f['goal']) for f in r['failed'])
            viol.append((o.name, write(o, o.name, body), ' no-failing-input-found', r['failed'][0]['label']))
        else:
            if n:
                bounded.append('%s: %d inputs on the real interpreter, all as specified (undecided: %s)' % (o.name, n, r['undecided'][:200]))
            else:
                undecided.append('%s: %s' % (o.name, r['undecided'][:300]))
    # ---- report
    kf = [k for k in known() if k[0] == prop]
    real = []
    for v in viol:
        k = next((k for k in kf if k[1] in v[0] or k[1] in v[3]), None)
        if k:
            lines.append('KNOWN-FINDING: property=%s %s' % (prop, k[2]))
        else:
            real.append(v)
    for l in dict.fromkeys(lines):
        print(l)
    real.sort(key=lambda v: v[2])
    for name, p, suf, txt in real[:12]:
        print('  %s: %s' % (name, txt))
        print('VIOLATION property=%s replay=%s%s' % (prop, p, suf))
    for b in bounded:
        print('BOUNDED %s' % b)
    for u in undecided:
        print('UNDECIDED %s' % u)
    vcs = [v for r in res.values() for v in r['vcs']]
    disch = [v for v in vcs if v[1] == 'discharged']
    by = {}
    for v in disch:
        by[v[2]] = by.get(v[2], 0) + 1
    trusted = {}
    inl = {}
    for r in res.values():
        for x in r.get('trusted', ()):
            trusted[x] = trusted.get(x, 0) + 1
        for x in r.get('inlined', ()):
            inl[x] = 1
    proved = [o for o in obs if not res[o.name]['undecided'] and not res[o.name]['failed']]
    bnd = [o for o in proved if o.level != 'proof']
    wall = time.time() - t0
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': len(vcs), 'discharged': len(disch),
            'checker_cmd': 'python3-vt check.py %s --tier %s (own VC generator over clang LLVM IR; z3 %s, cvc5)' % (prop, tier, __import__('z3').get_version_string()),
            'trusted_base': sorted(trusted)[:400] or spec.get('trusted', ['none']),
            'explanation': '%d functions under contract in %d argument shapes, %d proved for all inputs, %d proved within a stated bound on list/string length or arity, %d undecided. %d functions of /repo and its instantiated templates inlined into the conditions. Discharged by: %s. Solver time %.1f s.' % (
                len({o.fn for o in obs}), len(obs), len(proved) - len(bnd), len(bnd), len(und), len(inl), ', '.join('%s %d' % kv for kv in sorted(by.items())), sum(r.get('stats', {}).get('time', 0) for r in res.values())),
            'functions': sorted({o.fn for o in obs}),
            'shapes': [o.name for o in obs],
            'bounded': [o.name + ((': ' + o.note) if o.note else '') for o in bnd] + bounded,
            'undecided': undecided,
            'inlined': sorted(inl)[:3000],
            'evaluations': len(vcs) + replays,
            'replayed_inputs': replays,
        },
        'assumptions': spec.get('assumptions', []) + ASSUME + notes,
        'wall_s': round(wall, 2), 'violations': len(real),
    }
    p = os.path.join(HERE, 'evidence', prop + '.json')
    tmp = p + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, p)
    print('%s: %d/%d obligations discharged, %d shapes proved, %d undecided, %.1f s' % (prop, len(disch), len(vcs), len(proved), len(und), wall))
    if real:
        return 1
    return 0


ASSUME = [
    'clang 18 front end: the LLVM IR it emits (before optimisation, after mem2reg/simplifycfg) means what the C++ source means; unspecified evaluation orders are those clang picks while the project builds with g++',
    'contracts of libstdc++, libc, libm and GMP in vf/ext.py are assumed, not verified',
    'allocation never fails; the garbage collector does not run during the verified call',
    'single-threaded execution',
    'the symbolic executor vf/sym.py and the SMT solvers are sound',
]


def lemmas(names):
    """Have Lean check the arithmetic lemmas the obligations use."""
    import subprocess
    p = os.path.join(HERE, 'lemmas', 'Lemmas.lean')
    src = open(p).read()
    missing = [n for n in names if 'theorem %s ' % n not in src]
    try:
        r = subprocess.run(['lean', p], capture_output=True, text=True, timeout=200)
        if r.returncode == 0 and 'sorry' not in src and 'axiom' not in src and not missing:
            return 'lemmas proved by Lean with Mathlib on this run: ' + ', '.join(names)
        return 'lemmas NOT proved by Lean on this run (assumed): %s: %s' % (', '.join(names), (r.stdout + r.stderr)[-300:])
    except Exception as e:
        return 'lemmas not checked on this run (assumed): %s: %s' % (', '.join(names), e)


def load(obs):
    for o in obs:
        world.program(all_src=o.all_src)
        if o.all_src:
            break
    # warm the registry before forking
    w = world.World()
