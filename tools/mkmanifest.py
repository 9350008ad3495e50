#!/usr/bin/env python3
"""Writes MANIFEST.json from the rules present and the reasons below."""
import json, os, sys, importlib
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
NA = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p not in NA and os.path.exists(os.path.join(V, "rules", p.lower() + ".py")):
        m = importlib.import_module("rules." + p.lower())
        checks.append({"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                       "technique": m.TECHNIQUE, "level": "other", "level_note": m.EXPLANATION})
    else: na.append({"property": p, "reason": NA.get(p, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
