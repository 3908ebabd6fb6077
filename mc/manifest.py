#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T_SCHED = "stateless model checking of the implementation: exhaustive enumeration of operation sequences, schedules and kernel answers under a virtual kernel, against a reference model run in lockstep"
NOTE = ("Every execution within the bounds printed by the run is explored on the real code (no sampling). "
        "Trusted: the virtual kernel (mc/vk.c), the reference model in the check, AddressSanitizer. ")
C = {}   # id: (programs, technique, level, note)
# also: variants run in the thorough tier only
def add(id, progs, note, technique=T_SCHED, level="model_checking", also=""):
    C[id] = (progs, technique, level, NOTE + note, progs + (" " + also if also else ""))
exec(open(os.path.join(V, 'mc', 'checks.list')).read())
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
m = {"version": 1,
     "setup_cmd": "python3 mc/build.py " + ' '.join(p for c in C.values() for p in c[4].split()) + " >/dev/null",
     "checks": [], "not_applicable": []}
for p in props:
    i = p['id']
    if i in C:
        progs, tech, level, note, tprogs = C[i]
        m["checks"].append({"property": i, "quick_cmd": "./run.sh " + progs,
            "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + tprogs,
            "technique": tech, "level": level, "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "The check of this property is not built yet.")})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
