#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/levels.json."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines() if l.strip()]
levels = json.loads((V / "tools/levels.json").read_text())
checks = []
for p in props:
    l = levels.get(p["id"])
    if not l:
        continue
    c = {"property": p["id"], "quick_cmd": "./check %s quick" % p["id"], "thorough_cmd": "./check %s thorough" % p["id"],
         "evidence_file": "evidence/%s.json" % p["id"], "technique": l["technique"], "level": l["level"], "level_note": l["note"]}
    if l.get("theorems"):
        c["theorems"] = l["theorems"]
    checks.append(c)
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": levels["_na"][p["id"]]} for p in props if p["id"] in levels.get("_na", {})]}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1, ensure_ascii=False) + "\n")
