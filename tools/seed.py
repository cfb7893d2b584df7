#!/usr/bin/env python3
"""Planted changes: create and verify.

seed.py new SPEC.py     SPEC.py sets id, prop, edits=[(file, old, new)], needs, breaks, demo (C++ text) and sources (list), or demo_sh
seed.py kits          gives every demonstration the current stand-ins
seed.py verify ID...    build, stable tests, demonstration and check of each change (works in /repo, undone afterwards)
"""
import json, os, subprocess, sys, tarfile, io
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def kit(dst):
    with tarfile.open(dst, "w:gz", compresslevel=9) as t:
        def clean(ti):
            ti.mtime = 0; ti.uid = ti.gid = 0
            return None if "__pycache__" in ti.name else ti
        t.add(V + "/shim", "kit/shim", filter=clean)
        t.add(V + "/tools/vbuild.py", "kit/tools/vbuild.py", filter=clean)
        t.add(V + "/tools/demokit/demo_build.py", "kit/tools/demo_build.py", filter=clean)
        t.add(V + "/tools/demokit/run2.h", "kit/harness/run2.h", filter=clean)
def refresh():
    for i in sorted(os.listdir(V + "/seeded")):
        p = V + "/seeded/" + i + "/kit.tgz"
        if os.path.exists(p): kit(p)
def new(path):
    s = {}
    exec(open(path).read(), s)
    assert not sh("git -C /repo status --porcelain").stdout.strip()
    d = V + "/seeded/" + s["id"]
    os.makedirs(d, exist_ok=True)
    try:
        for f, a, b in s["edits"]:
            t = open(R + "/" + f).read()
            assert t.count(a) == 1, (f, a, t.count(a))
            open(R + "/" + f, "w").write(t.replace(a, b))
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
    finally:
        sh("git -C /repo checkout -- .")
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    if "demo_sh" in s:
        open(d + "/demo.sh", "w").write(s["demo_sh"])
    else:
        open(d + "/demo.sh", "w").write(open(V + "/tools/demokit/demo.sh").read())
        kit(d + "/kit.tgz")
        open(d + "/sources", "w").write("\n".join(s["sources"]) + "\n")
    if "demo" in s:
        open(d + "/demo.cc", "w").write(s["demo"])
    os.chmod(d + "/demo.sh", 0o755)
    return s["id"]
RES = V + "/tools/seed_results.json"
def verify(i):
    import time
    d = V + "/seeded/" + i
    prop = json.load(open(d + "/meta.json"))["property"]
    assert not sh("git -C /repo status --porcelain").stdout.strip()
    tmp = "/tmp/seeddemo"
    sh("rm -rf /tmp/seeddemo; cp -a %s /tmp/seeddemo; rm -f /tmp/seeddemo/*.diff /tmp/seeddemo/meta.json" % d)
    e = dict(os.environ, DEMO_CCACHE="/tmp/demo_ccache")
    t0 = time.time()
    a = sh("bash /tmp/seeddemo/demo.sh", cwd=R, env=e)
    t1 = time.time() - t0
    try:
        ap = sh("git -C /repo apply %s/patch.diff" % d)
        assert ap.returncode == 0, ap.stdout
        b = sh("bash /opt/vp/build.sh")
        t = sh("bash /opt/vp/test.sh /tmp/seed_test.json")
        passed = set(json.load(open("/tmp/seed_test.json"))["passed"])
        dm = sh("bash /tmp/seeddemo/demo.sh", cwd=R, env=e)
        t0 = time.time()
        ck = sh("VERIF_SEED=1 VERIF_TIER=quick python3 tools/check.py %s quick" % prop, cwd=V)
        t2 = time.time() - t0
    finally:
        sh("git -C /repo checkout -- .")
    ok = a.returncode == 0 and b.returncode == 0 and dm.returncode != 0 and len(passed) == 2
    caught = ck.returncode == 1 and ("VIOLATION property=%s " % prop) in ck.stdout
    print("%-28s %s demo %d->%d (%.0fs) build %d tests %d  check %s rc=%d (%.0fs)" % (i, "VALID" if ok else "INVALID", a.returncode, dm.returncode, t1, b.returncode, len(passed), "CAUGHT" if caught else "MISSED", ck.returncode, t2), flush=True)
    if not ok:
        print("  unpatched demo:", a.stdout[-600:], "\n  patched demo:", dm.stdout[-600:], "\n build:", b.stdout[-300:] if b.returncode else "")
    print("   ", [l[:200] for l in ck.stdout.splitlines() if "VIOLATION" in l or "rror" in l][:2], "| demo:", dm.stdout.strip()[-120:])
    res = json.load(open(RES)) if os.path.exists(RES) else {}
    res[i] = (prop if caught else "not caught") if ok else "invalid"
    json.dump(res, open(RES, "w"), indent=1, sort_keys=True)
if sys.argv[1] == "new":
    for p in sys.argv[2:]:
        verify(new(p))
elif sys.argv[1] == "kits":
    refresh()
else:
    for i in sys.argv[2:] or sorted(os.listdir(V + "/seeded")):
        verify(i)
