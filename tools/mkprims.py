#!/usr/bin/env python3
"""Writes specs/prims.json: the arities of the builtins, as documented at the time the specification was written
(run once; the checks use the committed file, not the code under test)."""
import re, glob, json, os
out = {}
for f in sorted(glob.glob("/repo/*.go")):
    if f.endswith("_test.go"): continue
    for m in re.finditer(r'Make(Restricted)?(PrimitiveFunction|SpecialForm)\("([^"]*)", "([^"]*)"', open(f).read()):
        r, kind, name, ar = m.groups()
        if ar == "*": lo, hi = 0, 999
        elif ar.startswith(">="): lo, hi = int(ar[2:]), 999
        else:
            ns = [int(x) for x in ar.split("|")]; lo, hi = min(ns), max(ns)
            assert ns == list(range(lo, hi + 1)), (name, ar)
        out[name] = [lo, hi, 1 if kind == "SpecialForm" else 0, 1 if r else 0]
for n, lo, hi in [("vprobe", 1, 2), ("vlog", 0, 0), ("vsame?", 2, 2)]:
    out[n] = [lo, hi, 0, 0]
json.dump(out, open(os.path.join(os.path.dirname(__file__), "../specs/prims.json"), "w"), indent=0, sort_keys=True)
print(len(out))
