#!/usr/bin/env python3
"""check.py <property-id>: builds what the property needs from /repo's working
tree, runs its generated-input searches, writes evidence/<id>.json.

exit 0: the property held on everything explored
exit 1: 'VIOLATION property=<id> replay=<path>' was printed
other:  the check itself failed (e.g. the tree does not compile)
"""
import fcntl, json, os, shutil, subprocess, sys, tempfile, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from spec import CHECKS, HARNESS

VERIF = vbuild.VERIF


def build(harnesses):
    """harnesses: set of (name, variant) -> path"""
    os.makedirs(vbuild.BUILD, exist_ok=True)
    out = {}
    with open(os.path.join(vbuild.BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        libs = {}
        for v in sorted({v for _, v in harnesses}):
            libs[v], errs = vbuild.archive(v)
            for s, e in errs:
                print("note: %s does not compile in this tree: %s" % (s, "\n".join(e.splitlines()[1:6])), file=sys.stderr)
        jobs, plan = [], []
        for h, v in sorted(harnesses):
            srcs = [h + ".cc"] + HARNESS.get(h, {}).get("extra", []) + ["pbt_main.cc"]
            ids = []
            for s in srcs:
                ids.append(len(jobs))
                jobs.append((os.path.join(VERIF, "harness", s), v, tuple(HARNESS.get(h, {}).get("flags", ()))))
            plan.append((h, v, ids))
        objs = vbuild.compile_many(jobs)
        for h, v, ids in plan:
            p = vbuild.link(h, [objs[i] for i in ids], v, libs[v], HARNESS.get(h, {}).get("libs", ()))
            out[(h, v)] = p
    return out


def known(pid):
    fixed, finds = [], []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid):
                # finding: property=<id> probe=<harness>:<prop> <text>
                rest = l.split(" ", 2)[2]
                probe, text = rest.split(" ", 1)
                finds.append((probe.split("=", 1)[1], text))
    return finds


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    chk = CHECKS[pid]
    t0 = time.time()
    parts = [p for p in chk["parts"]]
    need = {(p["h"], p.get("variant", "o1")) for p in parts}
    for probe, _ in known(pid):
        need.add((probe.split(":")[0], "o1"))
    bins = build(need)
    tb = time.time()
    scratch = tempfile.mkdtemp(prefix="vpsi_", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    rdir = os.path.join(vbuild.BUILD, "replay")
    os.makedirs(rdir, exist_ok=True)
    results, failed = [], None
    try:
        for k, p in enumerate(parts):
            cases = p["thorough"] if tier == "thorough" else p["quick"]
            budget = p.get("tbudget", 900) if tier == "thorough" else p.get("qbudget", 60)
            outf = os.path.join(scratch, "out.json")
            rp = os.path.join(rdir, "%s-%s-%d.replay" % (pid, p["p"], seed))
            if os.path.exists(outf):
                os.remove(outf)
            env = dict(os.environ)
            env.update({"LC_ALL": "C.UTF-8", "OMP_NUM_THREADS": "2", "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1",
                        "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1", "PBT_REPO": vbuild.REPO})
            env.update(p.get("env", {}))
            cmd = [bins[(p["h"], p.get("variant", "o1"))], "--prop", p["p"], "--seed", str(seed), "--cases", str(cases), "--budget", str(budget), "--tier", tier,
                   "--scratch", os.path.join(scratch, "s%d" % k), "--replay-out", rp, "--out", outf, "--shrink", str(p.get("shrink", 45)), "--workers", str(p.get("workers", 8))]
            os.makedirs(os.path.join(scratch, "s%d" % k))
            r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if r.returncode not in (0, 1) or not os.path.exists(outf):
                print("check error: %s rc=%d %s" % (" ".join(cmd), r.returncode, r.stderr.decode(errors="replace")[-2000:]), file=sys.stderr)
                return 2
            res = json.load(open(outf))
            res["harness"] = p["h"]
            res["variant"] = p.get("variant", "o1")
            results.append(res)
            if res["failed"]:
                failed = res
                with open(rp, "a") as f:
                    f.write("harness=%s\nvariant=%s\nenv=%s\n" % (p["h"], p.get("variant", "o1"), json.dumps(p.get("env", {}))))
                break
        lines = []
        if not failed:
            for probe, text in known(pid):
                h, prop = probe.split(":")
                outf = os.path.join(scratch, "out.json")
                r = subprocess.run([bins[(h, "o1")], "--prop", prop, "--seed", "1", "--cases", "1", "--workers", "1", "--shrink", "1", "--scratch", os.path.join(scratch, "k"), "--replay-out",
                                    os.path.join(rdir, "known-%s-%s.replay" % (pid, prop)), "--out", outf], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
                if r.returncode == 1:
                    lines.append("KNOWN-FINDING: property=%s %s" % (pid, text))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    ev = sum(r["evaluations"] for r in results)
    nt = sum(r["distinct_nontrivial"] for r in results)
    samples = []
    for r in results:
        for s in r.get("samples", [])[:2]:
            samples.append("[%s] %s" % (r["prop"], s))
        if r["failed"]:
            samples.append("[%s] FAILED: %s :: %s" % (r["prop"], r["message"], r["case"]))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": chk["level"],
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": nt, "rule": chk["rule"], "samples": samples or ["(no case was completed)"],
            "parts": [{"name": r["prop"], "harness": r["harness"], "build": r["variant"], "evaluations": r["evaluations"], "distinct_nontrivial": r["distinct_nontrivial"],
                       "discarded": r.get("discarded", 0), "classes": r["labels"], "counters": r["metrics"], "stopped_by_time_budget": r.get("budget_hit", False),
                       "slowest_case_s": r.get("slowest_s"), "wall_s": r["wall_s"]} for r in results],
            "build_s": round(tb - t0, 1),
        },
        "assumptions": chk.get("assumptions", []) + ["third-party libraries are the functional doubles under /verif/shim (validated by the repository's own unit tests), parties are threads over an in-memory link"],
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if failed else 0,
    }
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for r in results:
        print("%s %-26s %7d cases %7d non-trivial %6.1fs%s" % (pid, r["prop"], r["evaluations"], r["distinct_nontrivial"], r["wall_s"], " (time budget)" if r.get("budget_hit") else ""))
    if failed:
        print("  %s" % failed["message"])
        print("  case: %s" % failed["case"])
        print("VIOLATION property=%s replay=%s" % (pid, failed["replay"]))
        return 1
    for l in lines:
        print(l)
    if not ev:
        print("check error: nothing was explored", file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except vbuild.BuildError as e:
        print("check error: the tree or harness does not build\n%s" % e, file=sys.stderr)
        rc = 3
    sys.exit(rc)
