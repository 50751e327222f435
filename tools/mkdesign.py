#!/usr/bin/env python3
"""DESIGN.md = tools/design.md with the tables of planted bugs and of behaviour-preserving edits filled in"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + '/tools')
import bugdefs, glob, importlib
t = open(H + '/tools/design.md').read()
rows = ['| planted bug | property | what it breaks | caught by |', '|---|---|---|---|']
caught = json.load(open(H + '/tools/caught.json'))
for d in sorted(os.listdir(H + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (H, d)))
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'], ', '.join(caught.get(d, ['?']))))
t = t.replace('@SEEDS@', '\n'.join(rows))
ids = set()
for f in glob.glob(H + '/tools/refdefs*.py'):
    ids |= set(importlib.import_module(os.path.basename(f)[:-3]).R)
t = t.replace('@NREFS@', str(len(ids))).replace('@NBUGS@', str(len(bugdefs.B))).replace('@NSEEDS@', str(len(rows) - 2))
open(H + '/DESIGN.md', 'w').write(t)
