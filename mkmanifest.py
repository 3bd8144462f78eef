#!/usr/bin/env python3
"""Writes MANIFEST.json and properties.jsonl from props_src.py (kept in one place so they stay in step)."""
import json, os
ROOT = os.path.dirname(os.path.abspath(__file__))
import props_src as P
checks = []
for p in P.CLAIMED:
    checks.append(dict(property=p["id"],
                       quick_cmd="python3 check.py --property %s --tier quick" % p["id"],
                       thorough_cmd="python3 check.py --property %s --tier thorough" % p["id"],
                       evidence_file="evidence/%s.json" % p["id"],
                       technique=p["technique"], level=p["level"], level_note=p["level_note"]))
na = [dict(property=p["id"], reason=p["na"]) for p in P.NOT_APPLICABLE]
man = dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=na, notes=P.NOTES)
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P.CLAIMED + P.NOT_APPLICABLE:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        f.write(json.dumps(q) + "\n")
try:
    import jsonschema
    s = json.load(open("/root/.vp/MANIFEST.schema.json")); jsonschema.validate(man, s)
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(ROOT, "properties.jsonl")):
        jsonschema.validate(json.loads(l), s)
    print("valid", len(checks), len(na))
except ImportError:
    print("no jsonschema")
