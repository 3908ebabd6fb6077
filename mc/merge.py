#!/usr/bin/env python3
"""merge.py OUT PART...: one evidence file from those of several programs."""
import json, sys
out, parts = sys.argv[1], sys.argv[2:]
docs = [json.load(open(p)) for p in parts]
r = docs[0]
c = r['coverage']
for d in docs[1:]:
    for k, v in d['coverage'].items():
        if k not in c: c[k] = v
        elif isinstance(v, bool): c[k] = c[k] and v
        elif isinstance(v, int): c[k] += v
        elif isinstance(v, list): c[k] += v
    for a in d['assumptions']:
        if a not in r['assumptions']: r['assumptions'].append(a)
    r['wall_s'] = round(r['wall_s'] + d['wall_s'], 2)
    r['violations'] = r.get('violations', 0) + d.get('violations', 0)
json.dump(r, open(out, 'w'), indent=1)
