#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/table.py and checks.json."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + "/tools")
sys.dont_write_bytecode = True
from table import PROPS, NA
chk = json.load(open(HERE + "/checks.json"))["properties"]
with open(HERE + "/properties.jsonl", "w") as f:
    for p in PROPS:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        f.write(json.dumps(q) + "\n")
man = {
    "version": 1,
    "setup_cmd": "python3 build.py rel",
    "hooks": {"guard": "none", "enable": "no hook was needed: MPI and stdio are replaced at link time", "source_commits": []},
    "checks": [], "not_applicable": [],
    "notes": "Every check is one property body run by .build/rel/simt8 (see DESIGN.md). Replay a violation with: .build/rel/simt8 replay <file> --verbose 1",
}
for p in PROPS:
    if p["id"] in NA:
        man["not_applicable"].append({"property": p["id"], "reason": NA[p["id"]]})
    else:
        assert p["id"] in chk, p["id"]
        man["checks"].append({
            "property": p["id"],
            "quick_cmd": "python3 check.py %s quick" % p["id"],
            "thorough_cmd": "python3 check.py %s thorough" % p["id"],
            "technique": "deterministic simulation with fault injection: seeded search over workloads, MPI schedules and faults; " + p["oracle"],
            "level": "exploration",
            "level_note": p["note"],
        })
json.dump(man, open(HERE + "/MANIFEST.json", "w"), indent=1)
open(HERE + "/MANIFEST.json", "a").write("\n")
