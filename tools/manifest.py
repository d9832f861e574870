#!/usr/bin/env python3
# regenerates MANIFEST.json from properties.jsonl and the explorations that exist
import json, subprocess, os
os.chdir('/verif')
have = {}
for l in subprocess.run(['.build/mc', 'list'], capture_output=True, text=True).stdout.splitlines():
    a, name = l.split(' -- ')[0].split()
    have.setdefault(a, []).append(name)
checks, na = [], []
for l in open('properties.jsonl'):
    p = json.loads(l)
    if p['id'] in have:
        tech = "stateless explicit-state exploration of the real code: every decision sequence of the listed explorations is executed against the library and compared with an independent model"
        if p['id'] == 'C23':
            tech = "stateless schedule exploration of the real code under a controlled scheduler (preemption bounded), with race detection as side condition"
        checks.append({"property": p['id'], "quick_cmd": f"bash check.sh {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {p['id']}",
            "technique": tech, "level": "model_checking",
            "level_note": "explorations: " + ", ".join(have[p['id']]) + "; exhaustive within the bounds stated in DESIGN.md and in the evidence file"})
    else:
        na.append({"property": p['id'], "reason": "the exploration that decides it is not built yet"})
json.dump({"version": 1, "setup_cmd": "bash build.sh sched", "checks": checks, "not_applicable": na,
    "notes": "model checker in mc/ (Go, external module over /repo's exported API); see DESIGN.md"}, open('MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
