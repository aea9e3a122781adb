"""Writes the table of planted changes into DESIGN.md from seeded/*/meta.json and tools/catch.json."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(os.path.join(HERE, 'tools', 'catch.json')))
rows = ['| change | needs | caught by |', '|---|---|---|']
for i in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    p = os.path.join(HERE, 'seeded', i, 'meta.json')
    if os.path.exists(p):
        m = json.load(open(p))
        r = res.get(i)
        rows.append('| %s | %s | %s |' % (i, m['needs'].replace('|', '/'), '%s: %s' % (m['property'], r['first'].split(':')[0]) if r and r['exit'] == 1 else 'MISSED by %s' % m['property'] if r else 'not run'))
p = os.path.join(HERE, 'DESIGN.md')
s = open(p).read()
s = re.sub(r'@@TABLE@@|<!-- table -->.*<!-- end -->', lambda m: '<!-- table -->\n' + '\n'.join(rows) + '\n<!-- end -->', s, flags=re.S)
open(p, 'w').write(s)
