#!/usr/bin/env python3
"""MANIFEST.json from checks/specs.py: every property with a spec is claimed, the rest is listed with its reason."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/checks")
from specs import SPECS
REASONS = {}
TECH = "runtime monitoring: seeded hostile workloads on the real code under ASan/UBSan, judged by an independent reference-model oracle"
NOTE = ("Exploration: holds on every execution the monitors observed (counts in evidence). Trusts the reference model in "
        "harness/, gcc's sanitizers and the installed libraries.")
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in SPECS:
        m["checks"].append({"property": i, "quick_cmd": f"python3 checks/run.py {i}",
                            "thorough_cmd": f"python3 checks/run.py {i} --tier thorough",
                            "technique": SPECS[i].get("technique", TECH), "level": "exploration",
                            "level_note": SPECS[i].get("note", NOTE)})
    else:
        m["not_applicable"].append({"property": i, "reason": REASONS.get(i, "machinery for this property is not built yet")})
m["notes"] = ("Everything is driven by checks/run.py; harness sources in harness/, sanitizer builds of /repo's working tree in "
              "build/ (content-addressed cache, nothing is written under /repo). /repo has no hooks. known_findings.txt lists genuine "
              "defects recorded and repaired.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not")
