#!/usr/bin/env python3
"""Build every harness once, so that the checks only rebuild what changed."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from props import CHECKS
seen = set()
for c in CHECKS.values():
    for p in c["parts"]:
        k = (p["harness"], p.get("variant", "asan"))
        if k in seen:
            continue
        seen.add(k)
        print(B.build(p["harness"], k[1], p.get("cli", False), ["mc.cc"] + p.get("extra", []), p.get("link", ())), flush=True)
