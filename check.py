#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE] [extra options for the binary]

Builds the property's harness from /repo's current tree and runs it.
exit 0: held on everything explored; 1: VIOLATION printed; 2: could not build."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import build as Bd, targets
import fcntl

def main():
    prop = sys.argv[1]
    rest = sys.argv[2:]
    os.makedirs(Bd.B, exist_ok=True)
    names = [targets.target_of(prop)] + [t for t, _ in targets.ALSO.get(prop, [])]
    replay = rest[rest.index('--replay') + 1] if '--replay' in rest else None
    if replay:
        text = open(replay).read()
        for t, checks in targets.ALSO.get(prop, []):
            if any(f'"check": "{c}"' in text for c in checks):
                names = [t]
                break
        else:
            names = names[:1]
    lock = open(Bd.B + '/.lock', 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        exes = [Bd.build(n) for n in names]
    except Bd.Fail as e:
        print(f'cannot build the check for {prop}:\n{e}')
        sys.exit(2)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()
    os.makedirs(V + '/evidence', exist_ok=True)
    os.makedirs(Bd.B + '/replay', exist_ok=True)
    env = dict(os.environ)
    env['OMP_NUM_THREADS'] = '2'
    ev = f'{V}/evidence/{prop}.json'
    parts, rc = [], 0
    for exe in exes:
        part = f'{Bd.B}/evidence_{os.path.basename(exe)}.json'
        if os.path.exists(part): os.unlink(part)
        cmd = [exe, '--prop', prop, '--evidence', part,
               '--known', V + '/known_findings.txt', '--replay-dir', Bd.B + '/replay']
        for a in getattr(targets, 'ASSUME', {}).get(prop, []):
            cmd += ['--assume', a]
        sys.stdout.flush()
        rc = subprocess.run(cmd + rest, env=env).returncode
        if os.path.exists(part): parts.append(json.load(open(part)))
        if rc != 0: break
    if parts:
        d = parts[0]
        for q in parts[1:]:
            c, k = d['coverage'], q['coverage']
            for x in ('evaluations', 'distinct_nontrivial', 'discarded'): c[x] += k[x]
            c['rule'] += '; in the binary that reports races:' + k['rule'].split('per check:')[1]
            c['checks'].update(k['checks'])
            c['samples'] += k['samples']
            d['wall_s'] = round(d['wall_s'] + q['wall_s'], 2)
            d['violations'] += q['violations']
        json.dump(d, open(ev, 'w'), indent=1)
    sys.exit(rc)
main()
