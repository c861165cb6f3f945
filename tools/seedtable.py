#!/usr/bin/env python3
"""Rewrites the table of seeded changes at the end of DESIGN.md."""
import json, os, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALSO = {'C04': 'P05', 'C07': 'P24', 'C21': 'P06', 'C35': 'P26'}
rows = []
for m in sorted(glob.glob(R + '/seeded/*/meta.json')):
    d = json.load(open(m)); i = os.path.basename(os.path.dirname(m))
    f = sorted({l[6:].strip() for l in open(os.path.dirname(m) + '/patch.diff') if l.startswith('+++ b/')})
    by = d.get('caught_by') or d['property'] + (', ' + ALSO[i[:3]] if i[:3] in ALSO else '')
    rows.append('| %s | %s | %s | %s | %s |' % (i, ', '.join(f), d['property'], by, d['needs'].replace('|', '/').replace('\n', ' ')))
p = R + '/DESIGN.md'; s = open(p).read().split('## Seeded changes')[0]
s += '''## Seeded changes

Each was written from a property and the code, builds, passes the stable tests,
and has a demonstration that fails only with it. "caught by" lists the checks
that report it (`tools/seedtable.py` writes this table from seeded/*/meta.json).

| id | file | breaks | caught by | needs, to manifest |
|----|------|--------|-----------|--------------------|
''' + '\n'.join(rows) + '\n'
open(p, 'w').write(s)
