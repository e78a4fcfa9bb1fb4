"""Run Scheme expressions on the real interpreter, built from /repo's current sources."""
import os
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
from . import build, data

IMPORTS = '(scheme base) (scheme write) (scheme char) (scheme cxr) (scheme inexact) (scheme complex) (scheme lazy)'
PRIMS = IMPORTS + ' ' + ' '.join('(prefix (meevax %s) m:)' % l for l in ('boolean', 'box', 'character', 'comparator', 'list', 'number', 'pair', 'string', 'symbol', 'vector', 'vector homogeneous'))


def script(exprs, imports=IMPORTS, prelude='', start=0):
    out = ['(import %s)' % imports, data.PRELUDE, prelude]
    for i, e in enumerate(exprs):
        out.append('(%%run %d (lambda () %s))' % (i + start, e))
    return '\n'.join(out) + '\n'


def run(exprs, imports=IMPORTS, prelude='', timeout=120):
    """[data] one per expression; data.Crash when the process died evaluating it"""
    exe = build.interpreter()
    n = max(40, min(400, -(-len(exprs) // 8)))
    parts = [exprs[i:i + n] for i in range(0, len(exprs), n)]
    with ThreadPoolExecutor(8) as p:
        out = list(p.map(lambda es: chunk(exe, es, imports, prelude, timeout), parts))
    return [x for c in out for x in c]


def chunk(exe, exprs, imports, prelude, timeout):
    res = [None] * len(exprs)
    i = 0
    crashes = 0
    while i < len(exprs):
        # one crash must not cost the whole batch
        with tempfile.TemporaryDirectory(prefix='vfreplay') as d:
            p = os.path.join(d, 'r.ss')
            with open(p, 'w') as f:
                f.write(script(exprs[i:], imports, prelude, i))
            try:
                r = subprocess.run(['prlimit', '--as=8000000000', '--core=0', exe, p], capture_output=True, text=True, timeout=timeout, errors='replace', cwd=d, stdin=subprocess.DEVNULL)
                out, code = r.stdout, r.returncode
                err = r.stderr
            except subprocess.TimeoutExpired as e:
                out = (e.stdout or b'').decode('utf-8', 'replace') if isinstance(e.stdout, bytes) else (e.stdout or '')
                code, err = 'timeout', ''
        last = i - 1
        for ln in out.split('\n'):
            k, _, t = ln.partition(' ')
            if k.isdigit() and t.strip():
                try:
                    res[int(k)] = data.parse(t)
                    last = int(k)
                except Exception:
                    res[int(k)] = data.Other(t[:80])
                    last = int(k)
        if last + 1 < len(exprs):
            res[last + 1] = data.Crash('exit status %s %s' % (code, (out + err)[-160:] if last + 1 == i else err[-160:]))
            crashes += 1
            if crashes > 8:
                break
        i = last + 1 + (1 if last + 1 < len(exprs) else 0)
    return res
