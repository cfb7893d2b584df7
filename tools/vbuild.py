"""Builds /repo's sources (working tree) against the test doubles in shim/.

Every object is compiled through ccache (content-addressed, stored in
build/ccache), so a check that finds /repo unchanged relinks in seconds and a
check that finds a change recompiles exactly what the change affects.
"""
import concurrent.futures as cf
import glob, hashlib, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
GEN = os.path.join(BUILD, "gen")
SHIM = os.path.join(VERIF, "shim")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

PROTOS = [
    "experiment/pir/piano/piano.proto", "psi/algorithm/dkpir/secret_key.proto",
    "psi/algorithm/ecdh/ub_psi/ub_psi_cache.proto", "psi/algorithm/pir_interface/pir_type.proto",
    "psi/algorithm/sealpir/serializable.proto", "psi/algorithm/spiral/serializable.proto",
    "psi/checkpoint/checkpoint.proto", "psi/proto/pir.proto", "psi/proto/psi.proto",
    "psi/proto/psi_v2.proto", "psi/proto/entry.proto", "psi/proto/kuscia.proto",
    "psi/utils/serializable.proto", "psi/utils/table_utils.proto",
    "psi/wrapper/apsi/utils/group_db_status.proto",
]
SHIM_PROTOS = ["yacl/link/link.proto"]

# Directories whose non-test sources go into the archive harnesses link with.
LIB_DIRS = [
    "psi", "psi/algorithm", "psi/algorithm/ecdh", "psi/algorithm/ecdh/ub_psi", "psi/algorithm/kkrt",
    "psi/algorithm/rr22", "psi/algorithm/rr22/okvs", "psi/algorithm/nty", "psi/algorithm/spiral",
    "psi/algorithm/spiral/arith", "psi/algorithm/pir_interface", "psi/algorithm/sealpir",
    "psi/checkpoint", "psi/cryptor", "psi/utils", "psi/legacy", "psi/legacy/dp_psi",
    "psi/apps/psi_launcher", "psi/wrapper/apsi", "psi/wrapper/apsi/utils", "psi/wrapper/apsi/cli",
    "psi/wrapper/apsi/api", "psi/algorithm/dkpir", "experiment/psi/threshold_ecdh_psi", "experiment/psi/threshold_ub_psi",
    "experiment/psi/kmprt17_mp_psi", "experiment/pir/piano", "experiment/pir/pps", "experiment/pir/simplepir",
]
SKIP_SUFFIX = ("_test.cc", "_benchmark.cc", "_bench.cc", "_main.cc")
# group_bucket_db.cc repeats group_db.cc (the build links one of them); the two
# files in cli, and the api tests, only hold a main function
SKIP_FILES = {"psi/wrapper/apsi/utils/group_bucket_db.cc", "psi/wrapper/apsi/cli/sender.cc", "psi/wrapper/apsi/cli/receiver.cc",
              "psi/wrapper/apsi/test_utils.cc", "psi/wrapper/apsi/api/api_test_label.cc"}

BASE = ["-std=c++17", "-g1", "-mavx2", "-maes", "-mpclmul", "-mbmi2", "-mavx", "-msse4.1", "-fPIC",
        "-fopenmp", "-pthread", "-w", "-DSPDLOG_FMT_EXTERNAL", "-DFMT_SHARED", "-DSPDLOG_COMPILED_LIB", "-DSPDLOG_SHARED_LIB"]
VARIANTS = {
    "o1": dict(cxx="g++", flags=["-O1"], link=[]),
    "asan": dict(cxx="g++", flags=["-O1", "-fsanitize=address,undefined", "-fno-sanitize=alignment,vptr,shift,nonnull-attribute", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"],
                 link=["-fsanitize=address,undefined"]),
    "fuzz": dict(cxx="clang++", flags=["-O1", "-fsanitize=fuzzer-no-link,address", "-fno-omit-frame-pointer"], link=["-fsanitize=fuzzer,address"]),
    "tsan": dict(cxx="g++", flags=["-O1", "-fsanitize=thread"], link=["-fsanitize=thread"]),
}
INCLUDES = ["-I" + os.path.join(SHIM, "include"), "-I" + REPO, "-I" + GEN, "-I/usr/include/eigen3", "-I" + os.path.join(VERIF, "harness")]


def env():
    e = dict(os.environ)
    e["CCACHE_DIR"] = os.path.join(BUILD, "ccache")
    e["CCACHE_MAXSIZE"] = "8G"
    e["CCACHE_SLOPPINESS"] = "time_macros,include_file_mtime,include_file_ctime,pch_defines"
    e["CCACHE_COMPRESSLEVEL"] = "1"
    e["CCACHE_NOHASHDIR"] = "1"
    e["LC_ALL"] = "C.UTF-8"
    return e


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env(), cwd=VERIF, **kw)
    if p.returncode != 0:
        raise BuildError("command failed (%d): %s\n%s" % (p.returncode, " ".join(cmd), p.stdout.decode(errors="replace")[-6000:]))
    return p.stdout.decode(errors="replace")


def write_if_changed(path, data):
    if os.path.exists(path):
        with open(path, "rb") as f:
            if f.read() == data:
                return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp%d" % os.getpid()
    with open(tmp, "wb") as f:
        f.write(data)
    os.replace(tmp, path)


def gen_protos():
    """protoc into a scratch folder, then copy what differs (keeps mtimes)."""
    import shutil, tempfile
    os.makedirs(GEN, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=BUILD)
    try:
        inc = ["-I" + REPO, "-I" + os.path.join(SHIM, "include"), "-I/usr/include"]
        run(["protoc"] + inc + ["--cpp_out=" + tmp] + [p for p in PROTOS + SHIM_PROTOS])
        srcs = []
        for root, _, files in os.walk(tmp):
            for f in files:
                p = os.path.join(root, f)
                rel = os.path.relpath(p, tmp)
                with open(p, "rb") as fh:
                    write_if_changed(os.path.join(GEN, rel), fh.read())
                if rel.endswith(".pb.cc"):
                    srcs.append(os.path.join(GEN, rel))
        return sorted(srcs)
    finally:
        shutil.rmtree(tmp)


def lib_sources():
    out = []
    for d in LIB_DIRS:
        for f in sorted(glob.glob(os.path.join(REPO, d, "*.cc"))):
            rel = os.path.relpath(f, REPO)
            b = os.path.basename(f)
            if b.endswith(SKIP_SUFFIX) or b.startswith("test_") or "benchmark" in b or b == "main.cc" or rel in SKIP_FILES:
                continue
            out.append(f)
    return out


def obj_path(src, variant, extra=()):
    h = hashlib.sha1((src + "|" + " ".join(extra)).encode()).hexdigest()[:10]
    return os.path.join(BUILD, "obj", variant, os.path.basename(src)[:-3] + "." + h + ".o")


def compile_one(src, variant, extra=()):
    v = VARIANTS[variant]
    o = obj_path(src, variant, extra)
    os.makedirs(os.path.dirname(o), exist_ok=True)
    run(["ccache", v["cxx"]] + BASE + v["flags"] + INCLUDES + list(extra) + ["-c", src, "-o", o])
    return o


def compile_many(jobs, tolerant=False):
    """jobs: list of (src, variant, extra). Returns objects in order."""
    errs, outs = [], [None] * len(jobs)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = {ex.submit(compile_one, *j): i for i, j in enumerate(jobs)}
        for f in cf.as_completed(futs):
            try:
                outs[futs[f]] = f.result()
            except BuildError as e:
                errs.append((jobs[futs[f]][0], str(e)))
                if not tolerant:
                    for g in futs:
                        g.cancel()
                    raise
    return (outs, errs) if tolerant else outs


def absl_libs():
    ls = sorted(glob.glob("/usr/lib/x86_64-linux-gnu/libabsl_*.so") or glob.glob("/usr/lib/x86_64-linux-gnu/libabsl_*.a"))
    return ["-Wl,--start-group"] + ls + ["-Wl,--end-group"]


SYSLIBS = ["-lspdlog", "-lfmt", "-lprotobuf", "-lssl", "-lcrypto", "-lgmp", "-lgomp", "-lstdc++fs", "-ldl"]


def archive(variant, only=None):
    """libpsi.a for a variant: /repo sources + generated protos + doubles."""
    pb = gen_protos()
    srcs = lib_sources() if only is None else only()
    shims = sorted(glob.glob(os.path.join(SHIM, "src", "*.cc")))
    jobs = [(s, variant, ()) for s in srcs + pb + shims]
    outs, errs = compile_many(jobs, tolerant=True)
    lib = os.path.join(BUILD, "lib", variant, "libpsi.a")
    os.makedirs(os.path.dirname(lib), exist_ok=True)
    objs = [o for o in outs if o]
    tmp = lib + ".tmp%d" % os.getpid()
    if os.path.exists(tmp):
        os.remove(tmp)
    run(["ar", "rcsD", tmp] + objs)
    os.replace(tmp, lib)
    return lib, errs


def link(name, objs, variant, lib, extra=()):
    v = VARIANTS[variant]
    out = os.path.join(BUILD, "bin", variant, name)
    os.makedirs(os.path.dirname(out), exist_ok=True)
    ld = ["-fuse-ld=lld"]
    run([v["cxx"], "-o", out, "-pthread", "-fopenmp"] + ld + v["link"] + objs + [lib] + list(extra) + ["-lrapidcheck"] + absl_libs() + SYSLIBS)
    return out


if __name__ == "__main__":
    t = time.time()
    variant = sys.argv[1] if len(sys.argv) > 1 else "o1"
    lib, errs = archive(variant)
    for s, e in errs:
        print("FAILED", s)
        print("\n".join(e.splitlines()[1:12]))
    print("%s: %d failures, %.1fs" % (lib, len(errs), time.time() - t))
