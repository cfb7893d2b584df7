"""Builds a demonstration program from /repo's working tree and test doubles.

usage: demo_build.py KIT SCRATCH OUT DEMO.cc [source of /repo ...]
Sources given with a trailing slash stand for all non-test sources of that folder.
"""
import os, sys
kit, scratch, out, demo = sys.argv[1:5]
sys.path.insert(0, kit + "/tools")
import vbuild
vbuild.BUILD = scratch
vbuild.GEN = scratch + "/gen"
vbuild.INCLUDES = [i.replace(vbuild.VERIF + "/build/gen", vbuild.GEN) for i in vbuild.INCLUDES]
vbuild.VARIANTS["o1"]["flags"] = ["-O0", "-g0"]
_env = vbuild.env
def env():
    e = _env()
    e["CCACHE_DIR"] = os.environ.get("DEMO_CCACHE", scratch + "/ccache")
    return e
vbuild.env = env
srcs = []
for s in sys.argv[5:]:
    if s.endswith("/"):
        srcs += [f for f in vbuild.lib_sources() if os.path.dirname(os.path.relpath(f, vbuild.REPO)) + "/" == s]
    else:
        srcs.append(os.path.join(vbuild.REPO, s))
lib, errs = vbuild.archive("o1", only=lambda: srcs + [demo])
if errs:
    sys.stderr.write(errs[0][1][:3000])
    sys.exit(3)
objs = [vbuild.obj_path(demo, "o1")]
vbuild.run(["g++", "-o", out, "-pthread", "-fopenmp", "-fuse-ld=lld", "-Wl,--unresolved-symbols=ignore-all"] + objs + [lib] + vbuild.absl_libs() + vbuild.SYSLIBS)
