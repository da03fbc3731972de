#!/usr/bin/env python3
"""Rewrites the section on planted bugs of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
rows = []
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append((m['property'], os.path.basename(os.path.dirname(f)), m.get('caught', m['property']), m['what_it_breaks']))
s = '## Planted bugs\n\nMade from the texts of the properties and the code, each with a demonstration\n(`seeded/<id>/`; `tools/plant` verifies them). `caught by` names the check.\n\n| property | id | caught by | what it breaks |\n|---|---|---|---|\n'
for r in sorted(rows):
    s += '| %s | %s | %s | %s |\n' % r
d = open(root + '/DESIGN.md').read()
a = d.find('## Planted bugs')
b = d.find('## Limits')
if a < 0:
    a = b
open(root + '/DESIGN.md', 'w').write(d[:a] + s + '\n' + d[b:])
