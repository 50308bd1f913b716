#!/usr/bin/env python3
import json, os
from props import PROPS
import spec
V = os.path.dirname(os.path.abspath(__file__))
open(os.path.join(V, "properties.jsonl"), "w").write("".join(json.dumps(p) + "\n" for p in spec.P))
ids = [p["id"] for p in spec.P]
checks = [dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
               technique=PROPS[i]["technique"], level="other", level_note=PROPS[i]["note"], evidence_file="evidence/%s.json" % i) for i in ids if i in PROPS]
na = [dict(property=i, reason=spec.NA[i]) for i in ids if i not in PROPS]
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
  notes="Static analysis of the LLVM IR and the clang syntax tree of /repo's current sources; see DESIGN.md. known-findings.txt lists recorded defects and repairs."), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
