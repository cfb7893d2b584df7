#!/usr/bin/env python3
"""replay.py <replay-file>: rebuilds the harness and re-runs one saved case."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
kv = {}
for l in open(sys.argv[1]):
    if "=" in l:
        k, v = l.rstrip("\n").split("=", 1)
        kv[k] = v
key = (kv["harness"], kv.get("variant", "o1"))
b = check.build({key})[key]
env = dict(os.environ, OMP_NUM_THREADS="2", LC_ALL="C.UTF-8", **json.loads(kv.get("env", "{}")))
sys.exit(subprocess.run([b, "--prop", kv["prop"], "--replay", os.path.abspath(sys.argv[1])], env=env).returncode)
