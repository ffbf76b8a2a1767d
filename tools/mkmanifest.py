#!/usr/bin/env python3
"""Write MANIFEST.json from tools/props.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import CHECKS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in ids:
    if p in CHECKS:
        c = CHECKS[p]
        checks.append(dict(property=p, quick_cmd="python3 tools/check.py %s" % p, thorough_cmd="python3 tools/check.py %s" % p,
                           evidence_file="evidence/%s.json" % p, technique=c["technique"], level=c["level"], level_note=c["level_note"]))
na = [dict(property=p, reason=NOT_APPLICABLE.get(p, "No check has been built for it yet.")) for p in ids if p not in CHECKS]
m = dict(version=1, setup_cmd="python3 tools/setup.py",
         hooks=dict(guard="SCRIBBU_VERIF", enable="none are needed: the checks compile /repo's sources unmodified", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="Checks build /repo's working tree with gcc into /verif/build (git-ignored) and explore it exhaustively within the bounds in DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
