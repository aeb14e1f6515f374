#!/usr/bin/env python3
"""trybug.py ID...: apply seeded/ID/patch.diff in a scratch copy, run its demo on both trees and the property's check on the patched one."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/trybug'
REPO = W + '/repo'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
os.makedirs(W, exist_ok=True)
if not os.path.exists(REPO): sh(f'cp -a /repo {REPO}')
sh(f'git -C {REPO} fetch -q /repo HEAD && git -C {REPO} checkout -q -f --detach FETCH_HEAD')
for i in sys.argv[1:]:
    d = f'{V}/seeded/{i}'
    meta = json.load(open(d + '/meta.json'))
    sh(f'git -C {REPO} checkout -q -- .')
    demo = f'{W}/demo'
    shutil.rmtree(demo, ignore_errors=True); shutil.copytree(d, demo)
    for f in ('patch.diff', 'meta.json'): os.unlink(f'{demo}/{f}')
    c = sh(f'bash {demo}/demo.sh', cwd=REPO)
    a = sh(f'git -C {REPO} apply {d}/patch.diff')
    if a.returncode: print(i, 'DOES NOT APPLY', a.stderr); continue
    b = sh(f'bash {demo}/demo.sh', cwd=REPO)
    env = dict(os.environ, SPU_REPO=REPO, SPU_BUILD_DIR=W + '/build', VERIF_SEED='1', VERIF_TIER='quick')
    k = sh(f'python3 {V}/check.py {meta["property"]} --tier quick --evidence {W}/ev.json', env=env, cwd=V)
    viol = [l for l in k.stdout.splitlines() if l.startswith('VIOLATION')]
    ok = c.returncode == 0 and b.returncode != 0
    print(i, meta['property'], 'demo', 'ok' if ok else f'BAD clean={c.returncode} bug={b.returncode}', '| check', 'CAUGHT' if k.returncode == 1 and viol else f'missed rc={k.returncode}', flush=True)
    if not ok: print(c.stdout[-1500:], c.stderr[-1500:], '--- bug:', b.stdout[-500:], b.stderr[-1500:])
    if k.returncode not in (0, 1): print(k.stdout[-2000:], k.stderr[-2000:])
    elif viol: print('   ', [l for l in k.stdout.splitlines() if not l.startswith('C')][:2], k.stdout[-300:] if '-v' in os.environ.get('TB','') else '')
    sh(f'git -C {REPO} checkout -q -- .')
