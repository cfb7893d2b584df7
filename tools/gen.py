#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from spec.py, and checks them against the schemas when available."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import spec
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = sorted(spec.PROPS, key=lambda p: p["id"])
with open(V + "/properties.jsonl", "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
missing = [(p["id"], f) for p in props for f in p["anchors"]["files"] + [m["where"] for m in p["anchors"]["mechanism"] + p["anchors"]["state"]]
           if not os.path.exists("/repo/" + f.split(":")[0])]
assert not missing, ("missing anchors", missing)
checks = []
for p in props:
    c = spec.CHECKS.get(p["id"])
    if not c or not c["parts"]:
        continue
    checks.append({"property": p["id"], "quick_cmd": "python3 tools/check.py %s quick" % p["id"], "thorough_cmd": "python3 tools/check.py %s thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
m = {"version": 1, "setup_cmd": "python3 tools/setup_all.py", "hooks": {"guard": "none", "enable": "no hooks: the checks compile /repo's sources unchanged", "source_commits": []},
     "checks": checks, "not_applicable": spec.NOT_APPLICABLE,
     "notes": "Replay a violation: python3 tools/replay.py <replay-file>. Known findings and fixes: known_findings.txt."}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
# DESIGN.md: hand-written frame plus one section per property, and the seeded changes
out = []
for p in props:
    c = spec.CHECKS[p["id"]]
    out.append("### %s %s\n\n%s\n" % (p["id"], p["title"], p["statement"]))
    out.append("* Generated and compared: %s" % c["rule"])
    out.append("* Means: %s" % c["note"])
    for q in c["parts"]:
        out.append("* Part `%s:%s`%s: %d cases quick (at most %d s), %d thorough (at most %d s)" % (q["h"], q["p"], "" if q["variant"] == "o1" else " (%s build)" % q["variant"], q["quick"], q["qbudget"], q["thorough"], q["tbudget"]))
    out.append("* Why tests do not reach it: %s" % p["why_tests_cant"])
    if c["design"]:
        out.append("* " + c["design"])
    out.append("")
sec = "\n".join(out)
rows = ["| change | property | needs | caught by |", "|---|---|---|---|"]
res = json.load(open(V + "/tools/seed_results.json")) if os.path.exists(V + "/tools/seed_results.json") else {}
for d in sorted(os.listdir(V + "/seeded")) if os.path.isdir(V + "/seeded") else []:
    meta = json.load(open(V + "/seeded/%s/meta.json" % d))
    rows.append("| %s | %s | %s | %s |" % (d, meta["property"], meta["needs"].replace("|", "/"), res.get(d, "not run yet")))
D = V + "/DESIGN.md"
t = open(D).read()
def put(t, tag, body):
    a, b = "<!-- %s -->" % tag, "<!-- /%s -->" % tag
    return t[:t.index(a) + len(a)] + "\n" + body + "\n" + t[t.index(b):]
t = put(t, "properties", sec)
t = put(t, "seeded", "\n".join(rows))
open(D, "w").write(t)
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in props:
        jsonschema.validate(p, s)
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid:", len(props), "properties,", len(checks), "checks")
except ImportError:
    print("written (jsonschema not available)")
