#!/usr/bin/env python3
"""Builds the archive of /repo's sources and every harness (setup_cmd)."""
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
from spec import CHECKS
t = time.time()
need = {(p["h"], p.get("variant", "o1")) for c in CHECKS.values() for p in c["parts"]}
for pid in CHECKS:
    for probe, _ in check.known(pid):
        need.add((probe.split(":")[0], "o1"))
b = check.build(need)
print("built %d harnesses in %.0f s" % (len(b), time.time() - t))
