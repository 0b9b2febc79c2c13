#!/usr/bin/env python3
"""Builds the simulator, /repo's sources and the harness binaries with ninja.

usage: build.py BINARY...      (binaries are declared in BINARIES below)
"""
import os, subprocess, sys, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DSIM_REPO", "/repo")
BUILD = os.environ.get("DSIM_BUILD", os.path.join(VERIF, "build"))

COMMON = ("-std=c++17 -g1 -DNDEBUG -march=haswell -mno-avx512f -maes -mrdseed "
          "-include cstdint -include functional -include stdexcept -include vector "
          f"-I{REPO} -I{VERIF}/stubs -I{VERIF}/sim -I{VERIF}/harness -w -fno-omit-frame-pointer "
          "-DXLOG_STUB -DUSE_DSIM")
# DSIM_COV=1 (development aid, with its own DSIM_BUILD): count the lines the runs reach; see tools/coverage.sh
COV = " --coverage -fprofile-abs-path" if os.environ.get("DSIM_COV") else ""
SIM = ["kernel", "threads", "rand", "net", "files"]

# name -> (harness sources, variant, prefixes of the /repo sources it links; everything else is unused)
COMM = ["fbpcf/engine/communication/", "fbpcf/util/"]
ENGINE = COMM + ["fbpcf/engine/", "fbpcf/scheduler/"]
ALL = ["fbpcf/"]
IO = COMM + ["fbpcf/io/", "fbpcf/aws/", "fbpcf/gcp/", "fbpcf/exception/"]
BINARIES = {
    "smoke": (["smoke"], "plain", ALL),
    "chan": (["chan", "conn"], "plain", COMM),
    "prog": (["prog", "wires"], "plain", ENGINE),
    "ot": (["ot"], "plain", ENGINE),
    "front": (["front", "front_int1", "front_int2", "front_int3"], "plain", ENGINE),
    "perm": (["perm", "perm2", "perm3", "game"], "plain", ENGINE + ["fbpcf/mpc_std_lib/permuter/", "fbpcf/mpc_std_lib/util/"]),
    "joint": (["joint", "game"], "plain", ENGINE + ["fbpcf/mpc_std_lib/permuter/", "fbpcf/mpc_std_lib/util/"]),
    "oram": (["oram", "oram2", "game"], "plain", ENGINE + ["fbpcf/mpc_std_lib/oram/", "fbpcf/mpc_std_lib/util/", "fbpcf/io/", "fbpcf/aws/", "fbpcf/gcp/", "fbpcf/exception/"]),
    "udp": (["udp", "rows", "game"], "plain", IO + ENGINE + ["fbpcf/mpc_std_lib/permuter/", "fbpcf/mpc_std_lib/util/", "fbpcf/mpc_std_lib/unified_data_process/", "fbpcf/primitive/"]),
    "walr": (["walr", "game"], "plain", ENGINE + ["fbpcf/mpc_std_lib/walr_multiplication/"]),
    "leaks": (["leaks", "game"], "plain", IO + ENGINE + ["fbpcf/mpc_std_lib/", "fbpcf/primitive/"]),
    "ex": (["ex", "game"], "plain", IO + ENGINE + ["example/"]),
    "exec": (["exec"], "plain", IO + ENGINE + ["fbpcf/mpc/"]),
    "io": (["io"], "plain", IO),
    # with preemption at memory accesses
    "chani": (["chan"], "inst", COMM),
    "oti": (["ot"], "inst", ENGINE),
    "progi": (["prog"], "inst", ENGINE),
    "execi": (["exec"], "inst", IO + ENGINE + ["fbpcf/mpc/"]),
}
EXCLUDE_DIRS = ("/test/", "/tests/", "/example", "/millionaire")
# not part of any simulated binary: SGX/demo main programs etc.
EXCLUDE_FILES = set()
EXTRA_REPO = ["example/edit_distance/EditDistanceInputReader.cpp", "example/edit_distance/Validator.cpp"]


def repo_sources():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, "fbpcf")):
        dirs.sort()
        rel = os.path.relpath(root, REPO) + "/"
        if "/test/" in "/" + rel or "/tests/" in "/" + rel:
            dirs[:] = []
            continue
        for f in sorted(files):
            if f.endswith(".cpp") and f not in ("main.cpp",):
                p = rel + f
                if p not in EXCLUDE_FILES:
                    out.append(p)
    for p in EXTRA_REPO:
        if os.path.exists(os.path.join(REPO, p)):
            out.append(p)
    return out


def obj(variant, path):
    return f"{BUILD}/{variant}/{path.replace('/', '__')}.o"


def lib(variant, pf):
    import hashlib
    return f"{BUILD}/{variant}/lib{hashlib.sha1(' '.join(pf).encode()).hexdigest()[:8]}.a"


def write_ninja():
    os.makedirs(BUILD, exist_ok=True)
    L = []
    w = L.append
    # fiber stacks and longjmp-free: no sanitizer runtime is linked; the instrumented variant uses
    # the compiler's memory-access callbacks only, implemented by sim/tsanrt.cpp
    w(f"builddir = {BUILD}")
    w(f"common = {COMMON}")
    w("rule cxx\n  command = g++ $flags $common -MD -MF $out.d -c $in -o $out\n"
      "  depfile = $out.d\n  deps = gcc\n  description = CXX $out")
    w("rule ar\n  command = rm -f $out && ar crs $out @$out.rsp\n  rspfile = $out.rsp\n  rspfile_content = $in\n  description = AR $out")
    w(f"rule link\n  command = g++{COV} -rdynamic -o $out $objs $libs -lssl -lcrypto -lre2 -lfmt "
      "-lboost_serialization -lgflags -ldl -lpthread\n  description = LINK $out")
    for variant, flags in (("plain", "-O1" + COV), ("inst", "-O1 -fsanitize=thread --param tsan-distinguish-volatile=0 -DDSIM_INST")):
        objs = []
        names = []
        for s in repo_sources():
            names.append(s)
            o = obj(variant, s)
            objs.append(o)
            w(f"build {o}: cxx {REPO}/{s}\n  flags = {flags}")
        for s in sorted(glob.glob(f"{VERIF}/stubs/**/*.cpp", recursive=True)):
            o = obj(variant, "stubs/" + os.path.relpath(s, VERIF + "/stubs"))
            objs.append(o)
            names.append("stubs/")
            w(f"build {o}: cxx {s}\n  flags = {flags}")
        prefixes = sorted({tuple(b[2]) for b in BINARIES.values() if b[1] == variant})
        for pf in prefixes:
            use = [o for o, s in zip(objs, names) if s.startswith("stubs/") or any(s.startswith(x) for x in pf)]
            w(f"build {lib(variant, pf)}: ar {' '.join(use)}")
    for s in SIM + ["nohb", "tsanrt"]:
        if os.path.exists(f"{VERIF}/sim/{s}.cpp"):
            w(f"build {obj('sim', s)}: cxx {VERIF}/sim/{s}.cpp\n  flags = -O2{' -DDSIM_COV' if COV else ''}")
    done = set()
    for name, (srcs, variant, pf) in BINARIES.items():
        flags = "-O1" + COV if variant == "plain" else "-O1 -fsanitize=thread --param tsan-distinguish-volatile=0 -DDSIM_INST"
        objs = []
        for s in srcs:
            o = obj(variant, "harness/" + s)
            objs.append(o)
            if o not in done:
                done.add(o)
                w(f"build {o}: cxx {VERIF}/harness/{s}.cpp\n  flags = {flags}")
        for s in SIM + (["nohb"] if variant == "plain" else ["tsanrt"]):
            objs.append(obj("sim", s))
        a = lib(variant, tuple(pf))
        w(f"build {BUILD}/bin/{name}: link | {' '.join(objs)} {a}\n  objs = {' '.join(objs)}\n  libs = {a}")
    new = "\n".join(L) + "\n"
    path = f"{BUILD}/build.ninja"
    if not os.path.exists(path) or open(path).read() != new:
        open(path, "w").write(new)
    return path


def build(names, quiet=True):
    path = write_ninja()
    cmd = ["ninja", "-f", path] + [f"{BUILD}/bin/{n}" for n in names]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stderr.write(p.stdout[-6000:])
        return False
    return True


if __name__ == "__main__":
    sys.exit(0 if build(sys.argv[1:] or list(BINARIES)) else 2)
