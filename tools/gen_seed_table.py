"""writes the table of planted bugs of DESIGN.md from seeded/*/meta.json (each is caught by the check of its property: tools/seedtool.py catch)"""
import os, json, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(os.path.join(H, 'seeded'))):
    m = json.load(open(os.path.join(H, 'seeded', d, 'meta.json')))
    rows.append((m['property'], d, m['needs'], m['what_it_breaks']))
rows.sort()
t = '\n'.join(['<!-- seeds -->', '| Check | Planted bug | Needs | Breaks |', '|---|---|---|---|'] + ['| %s | %s | %s | %s |' % tuple(str(x).replace('|', '/') for x in r) for r in rows] + ['<!-- end of seeds -->'])
p = os.path.join(H, 'DESIGN.md'); s = open(p).read()
s = re.sub(r'<!-- seeds -->.*<!-- end of seeds -->', lambda m: t, s, flags=re.S)
open(p, 'w').write(s); print(len(rows), 'seeds')
