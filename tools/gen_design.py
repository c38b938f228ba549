"""DESIGN.md from DESIGN.src.md and the table of planted bugs (seeded/*/meta.json)."""
import os
import json
top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| Bug | Property | Needs | Caught by |', '|---|---|---|---|']
for i in sorted(os.listdir(os.path.join(top, 'seeded'))):
    m = json.load(open(os.path.join(top, 'seeded', i, 'meta.json')))
    rows.append('| `%s` | %s | %s | %s |' % (i, m['property'], m['needs'], m.get('caught', 'not yet')))
s = open(os.path.join(top, 'DESIGN.src.md')).read().replace('SEEDTABLE', '\n'.join(rows))
open(os.path.join(top, 'DESIGN.md'), 'w').write(s)
