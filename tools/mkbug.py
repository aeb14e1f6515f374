#!/usr/bin/env python3
"""mkbug.py ID PROPERTY FILE: reads stdin as JSON {"edits":[[file,old,new],...],"needs":..,"breaks":..}; writes seeded/ID/patch.diff and meta.json."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/trybug'; REPO = W + '/repo'
def sh(c): return subprocess.run(c, shell=True, capture_output=True, text=True)
def make(id, prop, edits, needs, breaks, demo=None, files=()):
    os.makedirs(W, exist_ok=True)
    if not os.path.exists(REPO): sh(f'cp -a /repo {REPO}')
    sh(f'git -C {REPO} fetch -q /repo HEAD && git -C {REPO} checkout -q -f --detach FETCH_HEAD')
    for f, old, new in edits:
        p = f'{REPO}/src/libspu/{f}'
        t = open(p).read()
        assert t.count(old) == 1, (id, f, t.count(old), old)
        open(p, 'w').write(t.replace(old, new))
    d = f'{V}/seeded/{id}'
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(sh(f'git -C {REPO} diff').stdout)
    sh(f'git -C {REPO} checkout -q -- .')
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    if demo is not None: open(d + '/demo.sh', 'w').write(demo)
    for n, t in files: open(f'{d}/{n}', 'w').write(t)
