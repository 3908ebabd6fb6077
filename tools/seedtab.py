# Regenerates the table of planted bugs in DESIGN.md from seeded/*/meta.json.
import json, glob, os
p = '/verif/DESIGN.md'; L = open(p).read().split('\n')
a = L.index('| bug | caught by | what breaks | what it needs |') + 2
b = a
while b < len(L) and L[b].startswith('|'): b += 1
rows = []
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'], m['needs']))
L[a:b] = rows; open(p, 'w').write('\n'.join(L))
