#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from targets.py and tools/notes.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + '/tools']
import targets, notes
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in targets.CLAIMED:
        tech, note = notes.N[i]
        checks.append(dict(property=i, quick_cmd=f'python3 check.py {i} --tier quick',
                           thorough_cmd=f'python3 check.py {i} --tier thorough',
                           evidence_file=f'evidence/{i}.json', technique=tech, level='exploration',
                           level_note=' '.join(note.split())))
    else:
        na.append(dict(property=i, reason=notes.NA.get(i, 'its check is not built yet')))
m = dict(version=1, setup_cmd='python3 build.py all', checks=checks, not_applicable=na,
         hooks=dict(guard='SPU_VERIF_HOOKS', enable='build.py compiles the sources of /repo with -DSPU_VERIF_HOOKS', source_commits=['30b9732']),
         notes='The only hooks in /repo make two task sizes variables; the harnesses compile the repository sources against stand-in third-party headers in /verif/shim (see DESIGN.md).')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
