#!/usr/bin/env python3
"""mkbug.py ID PROP FILE NEEDS BREAKS < 'old ==== new' pairs separated by lines of ####; demo.ss-style body from env DEMO
Creates /verif/seeded/ID with patch.diff, demo.sh, meta.json."""
import sys, os, json, subprocess, difflib
def make(id, prop, edits, needs, breaks, demo):
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    out = ''
    files = {}
    for f, old, new in edits:
        s = files.get(f) or (open('/repo/' + f).read(),) * 2
        assert s[1].count(old) == 1, (f, old, s[1].count(old))
        files[f] = (s[0], s[1].replace(old, new))
    for f, (a, b) in files.items():
        out += 'diff --git a/%s b/%s\n' % (f, f) + ''.join(difflib.unified_diff(a.splitlines(1), b.splitlines(1), 'a/' + f, 'b/' + f))
    open(d + '/patch.diff', 'w').write(out)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    if isinstance(demo, str) and demo.startswith('#!'):
        open(d + '/demo.sh', 'w').write(demo)
    else:
        imports, cases = demo
        sh = '#!/bin/bash\n# each expression must evaluate to #t\nt=$(mktemp -d)\ntrap \'/bin/rm -rf "$t"\' EXIT\ncat > "$t/demo.ss" <<\'EOF\'\n(import ' + imports + ')\n'
        for c in cases:
            sh += '(if (not (eq? #t %s)) (begin (display "BAD") (newline)))\n' % c
        sh += '(display "DONE")\n(newline)\nEOF\nr=$(timeout 60 ./_build/bin/meevax "$t/demo.ss" 2>&1)\necho "$r"\ncase "$r" in *BAD*) exit 1;; *DONE*) exit 0;; *) exit 1;; esac\n'
        open(d + '/demo.sh', 'w').write(sh)
    os.chmod(d + '/demo.sh', 0o755)
    subprocess.check_call(['git', '-C', '/repo', 'apply', '--check', d + '/patch.diff'])
