#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import checks
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = dict(version=1, setup_cmd="python3 setup.py", checks=[], not_applicable=[],
         notes="No hooks in /repo: every check drives the public interface of the code built from /repo/src. DESIGN.md describes oracles, findings and planted bugs.")
for p in props:
    c = checks.CHECKS.get(p["id"])
    if not c:
        m["not_applicable"].append(dict(property=p["id"], reason="its check is not built yet"))
        continue
    m["checks"].append(dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"], thorough_cmd="python3 check.py %s thorough" % p["id"],
                            technique=c["technique"], level=c["level"], level_note=c["note"]))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
