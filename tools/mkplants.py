#!/usr/bin/env python3
"""Rewrites the table at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
extra = json.load(open(os.path.join(root, 'tools', 'plants_extra.json')))
p = os.path.join(root, 'DESIGN.md')
t = open(p).read()
i = t.index('## Planted bugs')
rows = []
for f in sorted(glob.glob(os.path.join(root, 'seeded', '*', 'meta.json')), key=lambda f: (json.load(open(f))['property'], f)):
    m = json.load(open(f)); k = f.split('/')[-2]
    rows.append('| %s | %s | %s. Needs: %s | %s |' % (k, m['property'], m['what_it_breaks'].rstrip('.'), m['needs'], m['property']))
t = t[:i] + '''## Planted bugs
Each one was written from the property text and the code; all compile, pass the
six tests, and have a demonstration. "Caught by" is the quick check at seed 1.

| id | property | what | caught by |
|---|---|---|---|
''' + '\n'.join(rows) + '\n\nTried without a demonstration (a scratch tree, quick check at seed 1):\n\n' + '\n'.join('* ' + x for x in extra) + '\n'
open(p, 'w').write(t)
