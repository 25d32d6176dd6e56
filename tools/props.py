#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: run after editing."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "tools"))
from proplist import PROPS
out, checks, na = [], [], []
for p in PROPS:
    d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
         "quantifier": {"over": p["over"], "text": p["quant"]},
         "why_tests_cant": p["why"],
         "anchors": {"files": p["files"],
                     "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                     "observe_at": p.get("observe", []), "hook_needed": None}}
    if p.get("state"):
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]
    assert len(p["title"]) <= 80, p["id"]
    out.append(d)
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
    else:
        checks.append({"property": p["id"],
            "quick_cmd": f'./check.sh {p["bin"]} {p["id"]} quick',
            "thorough_cmd": f'./check.sh {p["bin"]} {p["id"]} thorough',
            "evidence_file": f'evidence/{p["id"]}.json',
            "technique": p["tech"], "level": p.get("level", "exploration"),
            "level_note": p["note"]})
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d in out:
        f.write(json.dumps(d) + "\n")
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Checks build a generated copy of /repo's working tree (build/tree) against the stand-ins in shims/ "
              "(rocksdb and malachite are not in the offline cargo cache). See DESIGN.md."}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
import jsonschema
S = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for d in out: jsonschema.validate(d, S)
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(out), "properties,", len(checks), "checks")
