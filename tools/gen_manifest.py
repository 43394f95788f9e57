#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import props as P
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
checks, na = [], []
for i, c in sorted(P.PROPS.items()):
    if c.get("na"):
        na.append(dict(property=i, reason=c["na"]))
        continue
    checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                       evidence_file="evidence/%s.json" % i, technique=c["technique"], level=c["level"], level_note=c["note"]))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="Kani (CBMC) and Verus contracts on /repo's own source, taken byte for byte (Kani) or function by function (Verus) on every run; DESIGN.md says what each step covers and assumes.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
