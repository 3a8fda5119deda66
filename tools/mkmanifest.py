"""writes MANIFEST.json from properties.jsonl"""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
try:
    meta = json.load(open(V + "/tools/levels.json"))
except Exception:
    meta = {}
checks = []
for p in props:
    m = meta.get(p["id"], {})
    checks.append({"property": p["id"], "quick_cmd": "./check %s" % p["id"], "thorough_cmd": "./check %s --tier thorough" % p["id"],
                   "technique": m.get("technique", "executable contract on the real functions (bounded); deductive verification under construction"),
                   "level": m.get("level", "exploration"),
                   "level_note": m.get("note", "contract evaluated on generated inputs")})
out = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": [],
       "notes": "known findings: known_findings.txt; no hooks in /repo"}
json.dump(out, open(V + "/MANIFEST.json", "w"), indent=1)
