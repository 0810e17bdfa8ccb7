#!/usr/bin/env python3
"""Prints the table of seeded bugs for DESIGN.md."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print('| bug | breaks | needs |')
print('|---|---|---|')
for p in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    m = json.load(open(p))
    print('| %s | %s | %s |' % (os.path.basename(os.path.dirname(p)),
          m['what_it_breaks'].replace('|', '/').replace('\n', ' '), m['needs'].replace('|', '/').replace('\n', ' ')))
