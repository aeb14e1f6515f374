#!/usr/bin/env python3
"""Developer aid: run cases one by one without stopping and cluster failures.
triage.py PROP CHECK FROM TO [SEED]"""
import subprocess, sys, re, os, concurrent.futures as cf, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
prop, chk, a, b = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
seed = sys.argv[5] if len(sys.argv) > 5 else '1'
sys.path.insert(0, V)
import targets
exe = f'{V}/build/bin/{targets.target_of(prop)}'
def one(i):
    p = subprocess.run([exe, '--prop', prop, '--only', chk, '--seed', seed, '--idx', str(i)], capture_output=True, text=True, errors='replace')
    return i, p.stdout
groups = collections.defaultdict(list)
n = 0
with cf.ThreadPoolExecutor(8) as ex:
    for i, out in ex.map(one, range(a, b)):
        n += 1
        if '=> FAIL' in out:
            msg = out.split('=> FAIL', 1)[1].strip()
            key = re.sub(r'\d+', '#', re.sub(r'\[.*?\]|\(.*?\)|\{.*?\}|0x[0-9a-f]+', '', msg))[:110]
            groups[key].append((len(out), i, out))
for k, v in sorted(groups.items(), key=lambda kv: -len(kv[1])):
    v.sort()
    print(f'### {len(v)} x {k}')
    for l, i, out in v[:2]:
        print('   idx', i, out.strip()[:1500].replace('\n', ' | '))
print(n, 'cases', sum(map(len, groups.values())), 'fail')
