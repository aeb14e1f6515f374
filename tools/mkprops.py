#!/usr/bin/env python3
"""Writes /verif/properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=()):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=' '.join(statement.split()), quantifier=dict(over=over, text=' '.join(text.split())),
             why_tests_cant=' '.join(why.split()), anchors=dict(files=['src/libspu/' + f for f in files],
             mechanism=[dict(name=n, where='src/libspu/' + w) for n, w in mech]))
    if observe: d['anchors']['observe_at'] = list(observe)
    for f in files: assert os.path.exists('/repo/src/libspu/' + f), (id, f)
    P.append(d)

exec(open(V + '/tools/props_text.py').read())
with open(V + '/properties.jsonl', 'w') as o:
    for d in P: o.write(json.dumps(d) + '\n')
print(len(P), 'properties')
