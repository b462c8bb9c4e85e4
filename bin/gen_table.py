#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md (documentation only: no check reads seeded/)."""
import glob, json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
FIRST = json.load(open(os.path.join(V, 'bin', 'missed.json')))
print('| planted bug | what it needs | caught by | first |\n|---|---|---|---|')
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    n = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    f = FIRST.get(n)
    print('| %s | %s | %s | %s |' % (n, m['needs'], f[0] if f and f[0] else m['property'], 'missed; ' + f[1] if f else 'caught'))
