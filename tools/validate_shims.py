"""Sanity check of the test doubles: builds and runs the repository's own unit
tests against them. Not a check itself; nothing here decides a property."""
import glob, os, subprocess, sys, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild as vb

def main():
    pats = sys.argv[1:]
    lib, errs = vb.archive("o1")
    tests = []
    for d in vb.LIB_DIRS:
        tests += sorted(glob.glob(os.path.join(vb.REPO, d, "*_test.cc")))
    if pats:
        tests = [t for t in tests if any(p in t for p in pats)]
    def one(t):
        name = "ut_" + os.path.relpath(t, vb.REPO).replace("/", "_")[:-3]
        try:
            o = vb.compile_one(t, "o1")
            b = vb.link(name, [o], "o1", lib, ["-lgtest_main", "-lgtest", "-lgmock"])
        except vb.BuildError as e:
            errs = [l for l in str(e).splitlines() if "error" in l][:3]
            return t, "BUILD " + " | ".join(errs)[:600]
        wd = os.path.join(vb.BUILD, "ut", name); os.makedirs(wd, exist_ok=True)
        try:
            p = subprocess.run([b], cwd=wd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
            out = p.stdout.decode(errors="replace")
        except subprocess.TimeoutExpired as e:
            open(os.path.join(wd, "log"), "wb").write(e.stdout or b"")
            return t, "TIMEOUT"
        open(os.path.join(wd, "log"), "w").write(out)
        tail = [l for l in out.splitlines() if "FAILED" in l or "PASSED" in l][-6:]
        return t, "rc=%d %s" % (p.returncode, " ; ".join(tail))
    with cf.ThreadPoolExecutor(6) as ex:
        for t, r in ex.map(one, tests):
            print(os.path.relpath(t, vb.REPO), r, flush=True)
main()
