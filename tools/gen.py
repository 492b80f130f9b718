#!/usr/bin/env python3
# Regenerates properties.jsonl and MANIFEST.json from props.py and checks.py
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from props import P
from checks import CHECKS, NOT_APPLICABLE, NOTES
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
ids = [p["id"] for p in P]; assert len(set(ids)) == len(ids)
for p in P: assert len(p["title"]) <= 80, p["id"]
checks = []
for id in ids:
    if id in CHECKS:
        c = CHECKS[id]
        checks.append(dict(property=id, quick_cmd=f"python3 tools/check.py {id}",
            thorough_cmd=f"python3 tools/check.py {id} --tier thorough",
            evidence_file=f"evidence/{id}.json", technique=c["technique"], level=c["level"], level_note=c["note"]))
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, "Check not built yet.")) for i in ids if i not in CHECKS]
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na, notes=NOTES)
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
