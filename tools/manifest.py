#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the claims below."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl') if l.strip()]
model = "runtime monitoring: "
claims = json.load(open(root + '/tools/claims.json'))
checks, na = [], []
for p in props:
    i = p['id']
    c = claims.get(i)
    if not c:
        na.append({"property": i, "reason": "check not built yet"})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"bash run.sh {i} quick",
        "thorough_cmd": f"bash run.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": model + c["technique"],
        "level": c.get("level", "exploration"),
        "level_note": c["note"],
    })
m = {"version": 1, "setup_cmd": "bash run.sh list", "checks": checks, "not_applicable": na,
     "notes": "One Go harness binary (/verif/harness) imports the code of /repo through a replace directive and is rebuilt from /repo's working tree by every command; no hooks in /repo are needed, every monitor observes the public API."}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
open(root + '/MANIFEST.json', 'a').write('\n')
