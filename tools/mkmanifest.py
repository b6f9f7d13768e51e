#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks and properties.jsonl."""
import json, os, subprocess, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import checks
NA = checks.NOT_APPLICABLE if hasattr(checks, "NOT_APPLICABLE") else {}
TECH = getattr(checks, "TECHNIQUE", {})
NOTE = getattr(checks, "LEVEL_NOTE", {})
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
cs, na = [], []
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        cs.append(dict(property=i, quick_cmd="python3 run.py %s quick" % i, thorough_cmd="python3 run.py %s thorough" % i,
                       evidence_file="evidence/%s.json" % i,
                       technique=TECH.get(i, "TLA+ specification checked with TLC; its behaviours replayed on the real interpreter"),
                       level="model_checking",
                       level_note=NOTE.get(i, "Exhaustive on the specification within the stated constants; the implementation is bound to it by replaying every explored transition and by random longer behaviours, so it is checked on what was replayed. Trusts the harness and TLC.")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check has been built for it yet")))
m = dict(version=1, setup_cmd="bash setup.sh", checks=cs, not_applicable=na,
         notes="All checks rebuild the harness from /repo's working tree. No hooks in /repo are needed: the exported API shows the abstract state.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(cs), "claimed,", len(na), "not")
