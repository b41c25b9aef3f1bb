#!/usr/bin/env python3
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import registry
V = os.path.dirname(HERE)
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
nap = os.path.join(HERE, "not_applicable.json")
if os.path.exists(nap): NA = json.load(open(nap))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=[], not_applicable=[])
for i in ids:
    if i in registry.PROPS:
        p = registry.PROPS[i]
        m["checks"].append(dict(property=i, quick_cmd="python3 tools/check.py %s quick" % i, thorough_cmd="python3 tools/check.py %s thorough" % i,
                                technique=p["technique"], level="exploration", level_note=p["level_note"]))
    else: m["not_applicable"].append(dict(property=i, reason=NA.get(i, "check not built yet")))
m["notes"] = "All checks: python3 tools/check.py <id> <tier>; replay with python3 tools/check.py --replay <file>. No hooks in /repo; repairs are 'fix:' commits listed in known_findings.json."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); print(len(m["checks"]), "checks", len(m["not_applicable"]), "n/a")
