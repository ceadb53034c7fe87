#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from lib/props/*.json (one file per property,
holding the property line and the manifest entry)."""
import json, os, glob, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
order = ["E","I","D","S","N","M","G","K","R"]
ps = [json.load(open(f)) for f in glob.glob(os.path.join(V, "lib/props/*.json"))]
ps.sort(key=lambda p: (order.index(p["property"]["id"][0]), p["property"]["id"]))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in ps: f.write(json.dumps(p["property"]) + "\n")
checks, na = [], []
for p in ps:
    i = p["property"]["id"]
    if "not_applicable" in p: na.append({"property": i, "reason": p["not_applicable"]}); continue
    m = p["manifest"]
    checks.append({"property": i, "quick_cmd": f"bin/check {i} quick", "thorough_cmd": f"bin/check {i} thorough", "evidence_file": f"evidence/{i}.json",
                   "technique": m["technique"], "level": m.get("level", "model_checking"), "level_note": m["level_note"]})
hooks = json.load(open(os.path.join(V, "lib/hooks.json"))) if os.path.exists(os.path.join(V, "lib/hooks.json")) else None
man = {"version": 1, "setup_cmd": "bin/setup"}
if hooks: man["hooks"] = hooks
man.update({"checks": checks, "not_applicable": na, "notes": "TLA+ specifications in specs/, checked with TLC; each check model-checks the design module, generates behaviours from it, replays them into the real code through a driver in drivers/ and validates the recorded observations with the trace module. See DESIGN.md."})
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in ps: jsonschema.validate(p["property"], s)
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError: print("no jsonschema here", file=sys.stderr)
print(len(checks), "checks", len(na), "not applicable")
