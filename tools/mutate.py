#!/usr/bin/env python3
"""Random mutants of /repo against the quick checks (not a registered check).

mutate.py WORK OUT.jsonl SECONDS SEED [PATH-PREFIX...]
WORK is a scratch folder; copies of /repo and of this folder are made there.
A mutant is one changed line; the parts of every property anchored in the
mutated file are run (o1 builds) until one fails.
"""
import json, os, random, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
work, out, secs, seed = sys.argv[1], sys.argv[2], float(sys.argv[3]), int(sys.argv[4])
prefixes = sys.argv[5:]
R = work + "/repo"
W = work + "/verif"
subprocess.run(["rsync", "-a", "--delete", "--exclude", "_build", "--exclude", ".git", "/repo/", R + "/"]) if shutil.which("rsync") else subprocess.run("rm -rf %s; mkdir -p %s; cd /repo && git archive HEAD | tar x -C %s" % (R, R, R), shell=True, check=True)
os.makedirs(W, exist_ok=True)
subprocess.run("cd %s && tar c --exclude=./build --exclude=./.git --exclude=./seeded . | tar x -C %s" % (V, W), shell=True, check=True)
os.environ["VERIF_REPO"] = R
sys.path.insert(0, W + "/tools")
import check, vbuild
from spec import CHECKS, HARNESS
props = {}
for l in open(W + "/properties.jsonl"):
    p = json.loads(l)
    props[p["id"]] = p["anchors"]["files"] + [m["where"] for m in p["anchors"]["mechanism"]]
lib0, errs = vbuild.archive("o1")
assert not errs, errs
base = lib0 + ".base"
shutil.copy(lib0, base)
# harness objects once
hs = sorted({p["h"] for c in CHECKS.values() for p in c["parts"] if p.get("variant", "o1") == "o1"})
hobj = {}
for h in hs:
    srcs = [h + ".cc"] + HARNESS.get(h, {}).get("extra", []) + ["pbt_main.cc"]
    hobj[h] = vbuild.compile_many([(os.path.join(W, "harness", s), "o1", tuple(HARNESS.get(h, {}).get("flags", ()))) for s in srcs])
rng = random.Random(seed)
files = [os.path.relpath(s, R) for s in vbuild.lib_sources()]
files += [f for fs in props.values() for f in fs if f.endswith(".h") and os.path.exists(R + "/" + f)]
files = sorted(set(f for f in files if not prefixes or any(f.startswith(p) for p in prefixes)))
SKIP = re.compile(r'SPDLOG|YACL_ENFORCE|YACL_THROW|fmt::|^\s*(//|#|using|namespace|\*|case |return;|break;|public:|private:|template|class|struct|enum|static_assert|"|DEFINE|CHECK)')
def mutants(line):
    m = []
    code = line.split("//")[0]
    if '"' in code: code_s = re.sub(r'"[^"]*"', lambda x: "\0" * len(x.group()), code)
    else: code_s = code
    def sub(pat, rep, tag):
        for x in re.finditer(pat, code_s):
            m.append((line[:x.start()] + rep(x) + line[x.end():], tag))
    if "template" not in code and "std::vector<" not in code and "<" in code_s:
        sub(r' < ', lambda x: " <= ", "<"); sub(r' <= ', lambda x: " < ", "<=")
        sub(r' > ', lambda x: " >= ", ">"); sub(r' >= ', lambda x: " > ", ">=")
    elif "<" not in code_s:
        sub(r' > ', lambda x: " >= ", ">"); sub(r' >= ', lambda x: " > ", ">=")
    sub(r' == ', lambda x: " != ", "=="); sub(r' != ', lambda x: " == ", "!=")
    sub(r' && ', lambda x: " || ", "&&"); sub(r' \|\| ', lambda x: " && ", "||")
    sub(r' \+ 1\b', lambda x: "", "+1"); sub(r' - 1\b', lambda x: "", "-1")
    sub(r' \+ (?=\w)', lambda x: " - ", "+"); sub(r' - (?=\w)', lambda x: " + ", "-")
    sub(r' \* (?=\w)', lambda x: " + ", "*"); sub(r' / (?=\w)', lambda x: " * ", "/"); sub(r' % (?=\w)', lambda x: " / ", "%")
    sub(r'\btrue\b', lambda x: "false", "true"); sub(r'\bfalse\b', lambda x: "true", "false")
    sub(r'(?<![\w.])(\d+)(?![\w.])', lambda x: str(int(x.group(1)) + 1), "const+1")
    sub(r'\bif \(', lambda x: "if (!", "!if") if re.search(r'\bif \((\w+|!?\w+\(.*\))\) \{\s*$', code) else None
    sub(r'std::min\b', lambda x: "std::max", "min"); sub(r'std::max\b', lambda x: "std::min", "max")
    if re.match(r'^\s+[\w\.\->\[\]\(\)\*]+( [\+\-\*\|\^&]?= .*|\(.*\)|\+\+|--);\s*$', code) and not re.match(r'^\s+(return|delete|throw|auto)\b', code):
        m.append((re.match(r'^\s*', line).group() + ";\n", "drop"))
    return m
def parts_of(f):
    ids = [i for i, fs in props.items() if any(f == a or f.rsplit(".", 1)[0] == a.rsplit(".", 1)[0] or (a.endswith("/") and f.startswith(a)) for a in fs)]
    if not ids:
        d = os.path.dirname(f)
        ids = [i for i, fs in props.items() if any(os.path.dirname(a) == d for a in fs)]
    seen, ps = set(), []
    for i in ids:
        for p in CHECKS[i]["parts"]:
            if p.get("variant", "o1") == "o1" and (p["h"], p["p"]) not in seen:
                seen.add((p["h"], p["p"])); ps.append((i, p))
    ps.sort(key=lambda x: x[1].get("qbudget", 60))
    return ids, ps
pool = []
for f in files:
    ls = open(R + "/" + f).readlines()
    c = []
    for n, l in enumerate(ls):
        if SKIP.search(l): continue
        for new, tag in mutants(l):
            if new != l: c.append((f, n, tag, l, new))
    rng.shuffle(c)
    pool.append(c)
print(len(files), "files", sum(map(len, pool)), "mutants", flush=True)
order = []
k = 0
while any(pool):
    for c in pool:
        for _ in range(1 + len(c) // 120):
            if c: order.append((k, rng.random(), c.pop()))
    k += 1
order.sort(key=lambda x: (x[0], x[1]))
t0 = time.time()
done = set()
if os.path.exists(out):
    for l in open(out):
        j = json.loads(l); done.add((j["file"], j["line"], j["new"]))
scr = work + "/scr"
for _, _, (f, n, tag, old, new) in order:
    if time.time() - t0 > secs: break
    if (f, n + 1, new.strip()) in done: continue
    ids, ps = parts_of(f)
    if not ps: continue
    path = R + "/" + f
    orig = open(path).read()
    ls = orig.splitlines(True)
    ls[n] = new
    open(path, "w").write("".join(ls))
    rec = {"file": f, "line": n + 1, "op": tag, "old": old.strip(), "new": new.strip(), "props": ids}
    t1 = time.time()
    try:
        try:
            if f.endswith(".h"):
                lib, e = vbuild.archive("o1")
                if e: raise vbuild.BuildError("x")
                obj = {h: None for h in hs}
            else:
                o = vbuild.compile_one(path, "o1")
                shutil.copy(base, lib0)
                subprocess.run(["ar", "rD", lib0, o], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                lib = lib0
        except vbuild.BuildError:
            continue
        res, where, linked = "SURVIVED", "", {}
        for i, p in ps:
            h = p["h"]
            if h not in linked:
                ob = hobj[h]
                if f.endswith(".h"):
                    srcs = [h + ".cc"] + HARNESS.get(h, {}).get("extra", []) + ["pbt_main.cc"]
                    ob = vbuild.compile_many([(os.path.join(W, "harness", s), "o1", tuple(HARNESS.get(h, {}).get("flags", ()))) for s in srcs])
                linked[h] = vbuild.link(h, ob, "o1", lib, HARNESS.get(h, {}).get("libs", ()))
            shutil.rmtree(scr, ignore_errors=True); os.makedirs(scr)
            env = dict(os.environ, LC_ALL="C.UTF-8", OMP_NUM_THREADS="2", PBT_REPO=R)
            env.update(p.get("env", {}))
            r = subprocess.run([linked[h], "--prop", p["p"], "--seed", "1", "--cases", str(p["quick"]), "--budget", str(p.get("qbudget", 60)), "--tier", "quick", "--scratch", scr, "--replay-out", scr + "/rp", "--out", scr + "/o.json", "--shrink", "1", "--workers", "8"],
                               env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if r.returncode != 0:
                res, where = ("CAUGHT" if r.returncode == 1 else "rc%d" % r.returncode), i + ":" + p["p"]
                break
        rec["result"], rec["by"], rec["s"] = res, where, round(time.time() - t1, 1)
        open(out, "a").write(json.dumps(rec) + "\n")
    finally:
        open(path, "w").write(orig)
        if not f.endswith(".h"):
            try: vbuild.compile_one(path, "o1")
            except Exception: pass
