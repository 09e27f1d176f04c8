"""DESIGN.md = tools/design_body.md + which checks catch which planted bug (tools/seedgen/caught.json)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
body = open(V + '/tools/design_body.md').read()
c = json.load(open(V + '/tools/seedgen/caught.json'))
rows = ['| planted bug | property | caught by |', '|---|---|---|']
for i in sorted(c):
    if os.path.isdir(V + '/seeded/' + i):
        rows.append('| %s | %s | %s |' % (i, c[i]['property'], ', '.join(c[i]['caught']) or '**none**'))
open(V + '/DESIGN.md', 'w').write(body + '\n'.join(rows) + '\n')
