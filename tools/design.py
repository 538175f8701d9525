#!/usr/bin/env python3
"""Put the tables into DESIGN.md: planted bugs from seeded/*/meta.json (last results in tools/caught.json)."""
import json
import os
import re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + '/DESIGN.md'
s = open(p).read()
c = json.load(open(V + '/tools/caught.json')) if os.path.exists(V + '/tools/caught.json') else {}
rows = ['| planted bug | property | what it breaks | caught by |', '|---|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    cut = m['what_it_breaks'].replace('|', '/').replace('\n', ' ')
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], cut, {True: m['property'], False: '**missed**', None: '?'}[c.get(d)]))
t = '<!-- seeded -->\n' + '\n'.join(rows) + '\n<!-- /seeded -->'
s = s.replace('@@SEEDED@@', t)
s = re.sub(r'<!-- seeded -->.*?<!-- /seeded -->', lambda m: t, s, flags=re.S)
open(p, 'w').write(s)
