#!/usr/bin/env python3
"""addnote.py PROP TECHNIQUE NOTE-EXPRESSION: adds an entry to notes.py and regenerates the manifest."""
import sys, os
p = os.path.dirname(os.path.abspath(__file__)) + '/notes.py'
s = open(p).read()
prop, tech, note = sys.argv[1:4]
i = s.rindex('}\nNA = {')
s = s[:i] + f" {prop!r}: ({tech!r}, {note}),\n" + s[i:]
open(p, 'w').write(s)
os.system('python3 ' + os.path.dirname(p) + '/mkmanifest.py')
