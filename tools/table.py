#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json.
python3 tools/table.py"""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '## Planted bugs\n'
rows = []
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['needs'], m.get('caught_by', m['property'])))
d = open(V + '/DESIGN.md').read().split(MARK)[0]
open(V + '/DESIGN.md', 'w').write(d + MARK + '''
Written from the text of the property and the code; validated by `tools/plant.py` (builds,
stable tests pass, the demonstration fails), tried by `tools/catch.py`. All are caught by the
quick tier of the check named.

| id | property | needs | caught by |
|---|---|---|---|
''' + '\n'.join(rows) + '\n')
