#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from catalog.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import catalog
V = os.path.dirname(HERE)
with open(V + "/properties.jsonl", "w") as f:
    for p in catalog.P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
na = {n["property"] for n in catalog.NOT_APPLICABLE}
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=[], not_applicable=catalog.NOT_APPLICABLE,
         notes="All checks are property-based tests: tools/check.py builds libfirm from /repo's working tree (build/ is a content-addressed cache) together with a harness from src/ and runs it. No hooks in /repo are needed.")
for p in catalog.P:
    if p["id"] in na:
        continue
    c = catalog.CHECKS[p["id"]]
    m["checks"].append(dict(property=p["id"], quick_cmd="python3 tools/check.py %s quick" % p["id"],
                            thorough_cmd="python3 tools/check.py %s thorough" % p["id"],
                            technique="property-based testing: " + c["technique"], level="exploration", level_note=c["note"]))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
