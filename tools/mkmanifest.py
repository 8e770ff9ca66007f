#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below and properties.jsonl."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
src = "".join(open(os.path.join(here, "mc", f)).read() for f in os.listdir(os.path.join(here, "mc")) if f.endswith(".go"))
built = set(re.findall(r'props\["(C\d\d)"\]', src))
notes = json.load(open(os.path.join(here, "tools", "levels.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in built:
        na.append({"property": i, "reason": "check not built yet"})
        continue
    n = notes[i]
    checks.append({"property": i, "quick_cmd": f"bash run.sh {i} quick", "thorough_cmd": f"bash run.sh {i} thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": n["technique"], "level": n.get("level", "model_checking"), "level_note": n["note"]})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the explorer uses the exported API and the built binary. See DESIGN.md."}
open(os.path.join(here, "MANIFEST.json"), "w").write(json.dumps(m, indent=1, ensure_ascii=False) + "\n")
print(len(checks), "checks,", len(na), "not built")
