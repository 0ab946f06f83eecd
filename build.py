#!/usr/bin/env python3
"""Builds the simulator with t8code from /repo's current working tree.

  build.py [variant]      variant: rel (default) | dbg | asan

Everything goes to /verif/.build/<variant> (ignored by git); the result is
/verif/.build/<variant>/simt8.  Real code: all of /repo/src that the project's
own source list names, mesh_handle, libsc and libp4est (static archives).
Replaced: MPI (sim/sim.cxx), the disk behind fopen (sim/simfs.cxx)."""
import os, re, shlex, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = REPO + "/src"
variant = sys.argv[1] if len(sys.argv) > 1 else "rel"
OUT = os.path.join(os.environ.get("VERIF_BUILD", HERE + "/.build"), variant)
os.makedirs(OUT, exist_ok=True)

txt = open(SRC + "/CMakeLists.txt").read()
m = re.search(r"^target_sources\( T8 PRIVATE(.*?)^\)", txt, re.S | re.M)
files = [f for f in m.group(1).split() if re.search(r"\.(c|cxx|cpp|cc)$", f)]
files = [f for f in files if os.path.exists(os.path.join(SRC, f))]

ver = "4.0.0"
defs = {
    "T8_ENABLE_MPI": "1", "T8_ENABLE_MPIIO": "1", "T8_CMAKE_BUILD": "", "OMPI_SKIP_MPICXX": "",
    "T8_CC": '"cc"', "T8_CFLAGS": '""', "T8_CXX": '"c++"', "T8_CXXFLAGS": '""', "T8_LDFLAGS": '""', "T8_LIBS": '""',
    "T8_PACKAGE_STRING": '"t8 %s"' % ver, "T8_VERSION": '"%s"' % ver, "T8_VERSION_MAJOR": "4", "T8_VERSION_MINOR": "0",
    "T8_VERSION_PATCH": "0", "T8_VERSION_POINT": "0", "T8_TEST_LEVEL_INT": "0",
}
opt = os.environ.get("VERIF_OPT", "-O1 -g1 -D_GLIBCXX_ASSERTIONS")
link = ""
if variant == "dbg":
    defs["T8_ENABLE_DEBUG"] = "1"
if variant == "asan":
    opt = "-O1 -g1 -fsanitize=address -fno-omit-frame-pointer"
    link = "-fsanitize=address"
mpi = "/usr/lib/x86_64-linux-gnu/openmpi/include"
inc = ["-I" + SRC, "-I" + REPO, "-I" + mpi, "-I" + mpi + "/openmpi", "-I" + HERE + "/sim", "-I" + HERE + "/work"]
dflags = ["-D%s%s" % (k, "=" + v if v else "") for k, v in defs.items()]
common = " ".join(shlex.quote(x) for x in inc + dflags) + " " + opt + " -w -MMD -MP -include " + HERE + "/sim/compat.h"

rules, objs, hobjs = [], [], []
def rule(src, obj):
    cc = "gcc -std=gnu11" if src.endswith(".c") else "g++ -std=c++20"
    rules.append("%s: %s %s/flags\n\t@%s %s -c %s -o %s\n" % (obj, src, OUT, cc, common.replace("$", "$$"), src, obj))
for f in files:
    o = OUT + "/t8_" + f.replace("/", "_") + ".o"
    rule(SRC + "/" + f, o)
    objs.append(o)
mh = REPO + "/mesh_handle/mesh.cxx"
if os.path.exists(mh):
    o = OUT + "/mh_mesh.cxx.o"
    rule(mh, o)
    objs.append(o)
for d in ("sim", "work"):
    for f in sorted(os.listdir(HERE + "/" + d)):
        if f.endswith(".cxx"):
            o = OUT + "/h_%s_%s.o" % (d, f)
            rule(HERE + "/%s/%s" % (d, f), o)
            hobjs.append(o)
wrap = "-Wl,--wrap=fopen,--wrap=fopen64,--wrap=sleep,--wrap=sc_malloc,--wrap=sc_calloc,--wrap=sc_realloc,--wrap=sc_free,--wrap=sc_strdup,--wrap=getline,--wrap=__getdelim,--wrap=free"
L = "/usr/lib/x86_64-linux-gnu/"
mk = "all: %s/simt8\n\n" % OUT
mk += "%s/libt8.a: %s\n\t@rm -f $@\n\t@ar rcs $@ $^\n\n" % (OUT, " ".join(objs))
mk += "%s/simt8: %s %s/libt8.a\n\t@g++ %s -o $@ %s %s/libt8.a %s %slibp4est.a %slibsc.a -lz -lm\n\n" % (
    OUT, " ".join(hobjs), OUT, link, " ".join(hobjs), OUT, wrap, L, L)
mk += "\n".join(rules) + "\n-include %s/*.d\n" % OUT
open(OUT + "/Makefile", "w").write(mk)
fl = OUT + "/flags"
if not os.path.exists(fl) or open(fl).read() != common:
    open(fl, "w").write(common)
r = subprocess.run(["make", "-s", "-j", str(os.cpu_count() or 8), "-f", OUT + "/Makefile"])
sys.exit(r.returncode)
