#!/usr/bin/env python3
"""reg.py ID RULE [RUNS]: registers a property in checks.json"""
import json, sys
p = "/verif/checks.json"; c = json.load(open(p))
e = {"rule": sys.argv[2]}
if len(sys.argv) > 3: e["quick"] = [{"variant": "rel", "runs": int(sys.argv[3]), "time": 25, "shrink": 20}]
c["properties"][sys.argv[1]] = e
c["properties"] = dict(sorted(c["properties"].items()))
json.dump(c, open(p, "w"), indent=1)
