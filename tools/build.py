#!/usr/bin/env python3
"""Builds the code under test from /repo's working tree into /verif/build.

The sources are globbed on every run, so added or removed files are seen.  The
library is compiled once per variant:

  mc   : plain serial build (no OpenMP), against the in-process message passing
         and parallel-netCDF stand-ins of /verif/fakempi.
  omp  : OpenMP build, every memory access instrumented (-fsanitize=thread code
         generation, but linked with our own run time, see harness/omprt.cpp).
  tsi  : like mc, but with the same memory access instrumentation, for a few
         chosen files (thread interleaving checks).

A ninja file is written and ninja run for the requested harness programs only.
"""
import glob, os, re, subprocess, sys, hashlib

REPO = os.environ.get("ALS_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("ALS_BUILD", os.path.join(VERIF, "build"))

PYINC = "/usr/include/python3.12"
COMMON_INC = [f"{REPO}/alsutils/include", f"{REPO}/alsfvm/include", f"{REPO}/alsuq/include", f"{REPO}/addons/qmc/include"]
WARN = "-w"
DEFS = "-DALSVINN_USE_MPI -DBOOST_LOG_DYN_LINK -DCOMPILING_ALSVINN -DNDEBUG"
LIBS = ("-lboost_log -lboost_log_setup -lboost_thread -lboost_filesystem -lboost_system "
        "-lboost_python312 -lboost_numpy312 -lboost_program_options -lboost_chrono -lpython3.12 -lnetcdf "
        "/usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5.so -ldl -lpthread")

VARIANTS = {
    "mc": dict(flags="-O1 -std=gnu++14 -fPIC -pthread -fno-gnu-unique",
               inc=[f"{VERIF}/fakempi", "/usr/include/hdf5/serial"]),
    "omp": dict(flags="-O1 -g1 -std=gnu++14 -fPIC -pthread -fopenmp -fsanitize=thread",
               inc=[f"{VERIF}/fakempi", "/usr/include/hdf5/serial"]),
    "tsi": dict(flags="-O1 -g1 -std=gnu++14 -fPIC -pthread -fsanitize=thread",
               inc=[f"{VERIF}/fakempi", "/usr/include/hdf5/serial"]),
}

PCH = """#pragma once
#include <algorithm>
#include <array>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <boost/log/trivial.hpp>
#include <boost/property_tree/ptree.hpp>
#include <boost/algorithm/string.hpp>
#include <boost/lexical_cast.hpp>
#include <boost/filesystem.hpp>
#include <boost/property_tree/xml_parser.hpp>
#include <boost/chrono.hpp>
#include <boost/date_time/posix_time/posix_time.hpp>
#include <boost/log/core.hpp>
#include <boost/log/expressions.hpp>
#include <boost/log/utility/setup/file.hpp>
#include <boost/log/sources/record_ostream.hpp>
#include <boost/log/sources/global_logger_storage.hpp>
#include <boost/log/utility/setup/common_attributes.hpp>
#include <boost/log/sources/logger.hpp>
#include <mpi.h>
"""

def lib_sources():
    out = []
    for lib in ("alsutils", "alsfvm", "alsuq", "addons/qmc"):
        for f in sorted(glob.glob(f"{REPO}/{lib}/src/**/*.cpp", recursive=True)):
            if "/cuda/" in f or re.search(r"HDF5MPIWriter[^/]*\.cpp$", f):
                continue
            out.append(f)
    return out

def gen_config(dst):
    """config.hpp / config.cpp, as CMake's configure_file would make them."""
    on = {"ALSVINN_USE_MPI", "ALSVINN_USE_TIMERS"}
    src = open(f"{REPO}/alsutils/include/alsutils/config.hpp.in").read()
    src = re.sub(r"#cmakedefine +(\w+)(.*)",
                 lambda m: f"#define {m.group(1)}{m.group(2)}" if m.group(1) in on
                 else f"/* #undef {m.group(1)} */", src)
    cm = open(f"{REPO}/CMakeLists.txt").read()
    m = re.search(r"project *\( *alsvinn +VERSION +(\d+)\.(\d+)\.(\d+)", cm, re.I)
    for i, v in enumerate(("MAJOR", "MINOR", "PATCH")):
        src = src.replace(f"@ALSVINN_{v}_VERSION@", m.group(i + 1) if m else "0")
    src = re.sub(r"@\w+@", "", src)
    write_if_changed(f"{dst}/include/alsutils/config.hpp", src)
    src = open(f"{REPO}/alsutils/src/config.cpp.in").read()
    src = re.sub(r"@\w+@", "x", src)
    write_if_changed(f"{dst}/config.cpp", src)

def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text:
        return
    open(path, "w").write(text)

ALONE = ["NumericalFluxCPU.cpp", "LogEntropy.cpp", "/Normal.cpp", "PythonScript.cpp", "PythonInitialData.cpp"]
FLAGGED = {"DLLWriter.cpp": "-Dimport=import_symbol", "DLLDistribution.cpp": "-Dimport=import_symbol",
           "mcrt.cpp": "-fno-threadsafe-statics", "racert.cpp": "-fno-threadsafe-statics", "omprt.cpp": "-fno-threadsafe-statics"}

# harness program -> (variant, extra sources, library sources selector, extra link flags)
def load_targets():
    import importlib.util
    spec = importlib.util.spec_from_file_location("targets", f"{VERIF}/tools/targets.py")
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    return m.TARGETS

def generate():
    os.makedirs(BUILD, exist_ok=True)
    gen_config(f"{BUILD}/gen")
    n = ["ninja_required_version = 1.5",
         "rule cxx", "  command = g++ -MMD -MF $out.d $flags -c $in -o $out",
         "  depfile = $out.d", "  deps = gcc", "  description = CXX $out",
         "rule pch", "  command = g++ -MMD -MF $out.d $flags -x c++-header $in -o $out", "  depfile = $out.d", "  deps = gcc",
         "rule unity", f"  command = g++ -MMD -MF $out.d $flags -c $in -o $out 2>$out.log || {VERIF}/tools/separately.sh $out \"$flags\" $srcs",
         "  depfile = $out.d", "  deps = gcc", "  description = UNITY $out",
         "rule ar", "  command = rm -f $out && ar qcs $out $in", "  description = AR $out",
         # run-time objects in one piece, with private copies of all templates (the library's are instrumented)
         "rule rt", "  command = ld -r --force-group-allocation -o $out.raw $in && nm $out.raw | awk '$$2 ~ /^[WVu]$$/ && $$3 !~ /^mc_/ {print $$3}' > $out.sym && "
         "objcopy --localize-symbols=$out.sym --redefine-sym memcpy=__real_memcpy --redefine-sym memmove=__real_memmove --redefine-sym memset=__real_memset $out.raw $out",
         "  description = RT $out",
         "rule link", "  command = g++ -o $out $ldflags @$out.rsp $libs", "  rspfile = $out.rsp",
         "  rspfile_content = $in", "  description = LINK $out", ""]
    libs = lib_sources()
    cfg = f"{BUILD}/gen/config.cpp"
    objs = {}
    def flags_for(var, src):
        v = VARIANTS[var]
        inc = " ".join("-isystem " + i if i.startswith("/usr") else "-I" + i
                       for i in v["inc"][:1] + [f"{BUILD}/gen/include"] + COMMON_INC + [f"{VERIF}/harness"] + v["inc"][1:] + [PYINC])
        return f"{WARN} {v['flags']} {DEFS} {inc} {FLAGGED.get(os.path.basename(src), '')}"
    def obj(var, src, extra=""):
        key = (var, src, extra)
        if key in objs:
            return objs[key]
        tag = hashlib.md5((src + extra).encode()).hexdigest()[:8]
        o = f"{BUILD}/{var}/{os.path.basename(src)[:-4]}-{tag}.o"
        fl = flags_for(var, src); pch = ""
        n.append(f"build {o}: cxx {src}{pch}\n  flags = {fl} {extra}")
        objs[key] = o
        return o
    def lib_objs(var, srcs):
        """Objects of the library: small files are compiled in groups (separately if a group does not compile)."""
        alone = [x for x in srcs if os.path.basename(x) in FLAGGED or any(k in x for k in ALONE) or x.endswith("config.cpp")]
        rest = [x for x in srcs if x not in alone]
        groups, cur, size = [], [], 0
        for x in rest:
            sz = 12000 + os.path.getsize(x)
            if cur and (size + sz > 120000 or os.path.dirname(x).split("/src/")[0] != os.path.dirname(cur[0]).split("/src/")[0]):
                groups.append(cur); cur, size = [], 0
            cur.append(x); size += sz
        if cur: groups.append(cur)
        out = [obj(var, x) for x in alone]
        for g in groups:
            tag = hashlib.md5(" ".join(g).encode()).hexdigest()[:10]
            o = f"{BUILD}/{var}/u_{tag}.o"
            if o not in objs:
                u = f"{BUILD}/gen/u_{tag}.cpp"
                write_if_changed(u, "".join(f'#include "{x}"\n' for x in g))
                fl = flags_for(var, u)
                n.append(f"build {o}: unity {u}\n  flags = {fl}\n  srcs = {' '.join(g)}")
                objs[o] = o
            out.append(o)
        return out
    T = load_targets()
    for name, t in T.items():
        if "script" in t: continue
        var = t["variant"]
        # files compiled with the instrumented variant, the rest with the base one
        base = t.get("base", var)
        ho = []
        for s in t["sources"]:
            hv = "mc" if s in t.get("plain", t["sources"]) else var
            extra = t.get("cxxflags", "") if s == t["sources"][0] else ""
            ho.append(obj(hv, f"{VERIF}/harness/{s}" if not s.startswith("/") else s, extra))
        if t.get("lib") == "objects":      # instrument chosen files only
            sel = t["select"]
            lo = [obj(var if any(k in s for k in sel) else "mc", s) for s in libs + [cfg]]
            ins = ho + lo
        elif t.get("lib") == "none":
            ins = ho
        elif t.get("lib") == "only":       # just these files, all in this variant
            ins = ho + [obj(var, s) for s in libs if any(k in s for k in t["select"])] + ([obj(var, cfg)] if t.get("config", True) else [])
        else:
            # whole archive: the factories register themselves in static initialisers
            lo = lib_objs(base, [x for x in libs if not any(k in x for k in t.get("without", []))] + [cfg])
            ins = ho + lo
            if "runtime" in t:             # library first: its instrumented templates are the ones used
                rt = f"{BUILD}/{base}/rt_{hashlib.md5(' '.join(t['runtime']).encode()).hexdigest()[:8]}.o"
                if rt not in objs:
                    objs[rt] = rt
                    n.append(f"build {rt}: rt {' '.join(obj('mc', f'{VERIF}/harness/{s}') for s in t['runtime'])}")
                ins = lo + ho + [rt]
        ld = t.get("ldflags", "-rdynamic")
        n.append(f"build {BUILD}/bin/{name}: link {' '.join(ins)}\n  ldflags = -pthread {ld}\n  libs = {t.get('libs', LIBS)}")
    write_if_changed(f"{BUILD}/build.ninja", "\n".join(n) + "\n")

def build(names, quiet=True):
    generate()
    T = load_targets()
    for x in [x for x in names if "script" in T[x]]:
        os.makedirs(f"{BUILD}/bin", exist_ok=True)
        write_if_changed(f"{BUILD}/bin/{x}", f"#!/bin/sh\nexport ALS_REPO={REPO} ALS_BUILD={BUILD}\nexec /usr/bin/python3 {VERIF}/harness/{T[x]['script']} \"$@\"\n")
        os.chmod(f"{BUILD}/bin/{x}", 0o755)
        names = [y for y in names if y != x] + T[x]["needs"]
    cmd = ["ninja", "-k", "0", "-C", BUILD] + [f"{BUILD}/bin/{x}" for x in names]
    r = subprocess.run(cmd, stdout=subprocess.PIPE if quiet else None, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout or "")
        print("BUILD FAILED: " + " ".join(names)); raise SystemExit(2)

if __name__ == "__main__":
    build(sys.argv[1:], quiet=False)
