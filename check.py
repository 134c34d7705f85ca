#!/usr/bin/env python3
"""Build /repo's library sources and the harness of one property from the
current working trees, then run the harness.

  check.py setup            build everything (warms the object cache)
  check.py run  C12         build and run the check of C12 (VERIF_TIER, VERIF_SEED)
  check.py build C12        build only
  check.py replay C12 FILE  replay a failing case

Objects are compiled straight from /repo (never from its _build directory) and
cached by content in /verif/build (ignored by git)."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PBT_REPO", "/repo")
P = "/opt/hpp-venv/lib/python3.12/site-packages/cmeel.prefix"
BUILD = os.path.join(VERIF, "build")

DEFINES = """-DBOOST_ATOMIC_DYN_LINK -DBOOST_CHRONO_DYN_LINK -DBOOST_CONTAINER_DYN_LINK
-DBOOST_DATE_TIME_DYN_LINK -DBOOST_FILESYSTEM_DYN_LINK -DBOOST_SERIALIZATION_DYN_LINK
-DBOOST_THREAD_DYN_LINK -DBOOST_FUSION_INVOKE_MAX_ARITY=12 -DBOOST_MPL_CFG_NO_PREPROCESSED_HEADERS
-DBOOST_MPL_LIMIT_LIST_SIZE=30 -DBOOST_MPL_LIMIT_VECTOR_SIZE=30 -DCOAL_BACKWARD_COMPATIBILITY_WITH_HPP_FCL
-DCOAL_HAS_OCTOMAP -DCOAL_HAVE_OCTOMAP -DHPP_CONSTRAINTS_USE_QPOASES -DOCTOMAP_MAJOR_VERSION=1
-DOCTOMAP_MINOR_VERSION=10 -DOCTOMAP_PATCH_VERSION=0 -DPINOCCHIO_ENABLE_COMPATIBILITY_WITH_VERSION_2
-DPINOCCHIO_ENABLE_TEMPLATE_INSTANTIATION -DPINOCCHIO_URDFDOM_HEADERS_MAJOR_VERSION=3
-DPINOCCHIO_URDFDOM_HEADERS_MINOR_VERSION=0 -DPINOCCHIO_URDFDOM_HEADERS_PATCH_VERSION=0
-DPINOCCHIO_WITH_COLLISION -DPINOCCHIO_WITH_HPP_FCL -DPINOCCHIO_WITH_URDFDOM -DTINYXML2_IMPORT
-D_FILE_OFFSET_BITS=64""".split()
INC = [f"-I{VERIF}/gen", f"-I{VERIF}/gen/include", f"-I{VERIF}/harness", f"-I{REPO}/include", f"-I{REPO}/src"]
INC += sum([["-isystem", P + "/" + d] for d in ("include", "include/eigen3", "include/pinocchio/deprecated",
                                               "include/urdfdom", "include/urdfdom_headers")], [])
LIBS = [f"-Wl,-rpath,{P}/lib"] + [f"{P}/lib/lib{x}.so" for x in
        ("hpp-pinocchio qpOASES hpp-util pinocchio_parsers urdfdom_sensor urdfdom_model urdfdom_world "
         "tinyxml2 pinocchio_collision pinocchio_default coal boost_filesystem octomap octomath "
         "boost_serialization boost_thread boost_atomic boost_chrono boost_container boost_date_time").split()]
LIBS += ["-lgomp", "-lpthread"]

VARIANTS = {
    "": ["-O1", "-g0", "-D_GLIBCXX_ASSERTIONS"],
    "asan": ["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined", "-fno-sanitize=vptr,alignment,null",
             "-fno-sanitize-recover=undefined", "-DEIGEN_MALLOC_ALREADY_ALIGNED=1", "-fno-omit-frame-pointer"],
}
COMMON = ["-w", "-std=gnu++17", "-include", "map", "-fPIC", "-fopenmp"]


def env():
    e = dict(os.environ)
    e["LD_LIBRARY_PATH"] = f"{P}/lib:{P}/lib64"
    e["ROS_PACKAGE_PATH"] = f"{P}/share:{P}/share/example-robot-data/robots"
    e["OMP_NUM_THREADS"] = "1"
    e["LC_ALL"] = e["LANG"] = "C.UTF-8"
    e["CCACHE_DIR"] = os.path.join(BUILD, "ccache")
    e["CCACHE_COMPILERCHECK"] = "content"
    e["CCACHE_NOHASHDIR"] = "1"
    e["CCACHE_MAXSIZE"] = "3G"
    e["CCACHE_SLOPPINESS"] = "include_file_mtime,include_file_ctime"
    for k in ("CCACHE_DISABLE", "CPATH", "CPLUS_INCLUDE_PATH"):
        e.pop(k, None)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:detect_odr_violation=0:alloc_dealloc_mismatch=0"
    e["UBSAN_OPTIONS"] = "abort_on_error=1:print_stacktrace=0"
    return e


def lib_sources():
    return sorted(glob.glob(f"{REPO}/src/**/*.cc", recursive=True))


def harness_sources(pid):
    return [f"{VERIF}/harness/{pid.lower()}.cc", f"{VERIF}/harness/pbt.cc", f"{VERIF}/harness/gen.cc", f"{VERIF}/harness/zoo.cc", f"{VERIF}/harness/prob.cc",
            f"{VERIF}/harness/sys.cc"]


def compile_all(srcs, variant):
    ccache = shutil.which("ccache")
    os.makedirs(f"{BUILD}/obj{variant}", exist_ok=True)
    objs, jobs = [], []
    for s in srcs:
        o = f"{BUILD}/obj{variant}/" + os.path.relpath(s, "/").replace("/", "_") + ".o"
        objs.append(o)
        tmp = f"{o}.{os.getpid()}.tmp.o"
        cmd = ([ccache] if ccache else []) + ["/usr/bin/g++"] + COMMON + VARIANTS[variant] + DEFINES + INC
        jobs.append((s, o, tmp, cmd + ["-c", s, "-o", tmp]))
    # big ones first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]) - (10**6 if "generic-transf" in j[0] else 0))
    errors = []

    def one(j):
        s, o, tmp, cmd = j
        r = subprocess.run(cmd, capture_output=True, text=True, env=env())
        if r.returncode:
            errors.append(f"{s}:\n{r.stderr[-3000:]}")
        else:
            os.replace(tmp, o)

    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        list(ex.map(one, jobs))
    if errors:
        print("\n".join(errors), file=sys.stderr)
        sys.exit("compilation failed")
    return objs


def build(pids, variant=""):
    t0 = time.time()
    lib = lib_sources()
    har = []
    for p in pids:
        for s in harness_sources(p):
            if s not in har:
                har.append(s)
    objs = dict(zip(lib + har, compile_all(lib + har, variant)))
    os.makedirs(f"{BUILD}/bin{variant}", exist_ok=True)

    def link(p):
        out = f"{BUILD}/bin{variant}/{p}"
        tmp = f"{out}.{os.getpid()}.tmp"
        cmd = ["/usr/bin/g++", "-fopenmp"] + [f for f in VARIANTS[variant] if f.startswith("-f")]
        cmd += [objs[s] for s in harness_sources(p) + lib] + ["-o", tmp] + LIBS
        r = subprocess.run(cmd, capture_output=True, text=True, env=env())
        if r.returncode:
            return f"link {p}:\n{r.stderr[-3000:]}"
        os.replace(tmp, out)

    with cf.ThreadPoolExecutor(4) as ex:
        err = [e for e in ex.map(link, pids) if e]
    if err:
        print("\n".join(err), file=sys.stderr)
        sys.exit("link failed")
    print(f"built {' '.join(pids)} {variant} in {time.time() - t0:.1f} s", flush=True)


def all_pids():
    m = json.load(open(f"{VERIF}/MANIFEST.json"))
    return [c["property"] for c in m["checks"]]


def run(pid, extra=(), variant="", **kw):
    e = env()
    e.setdefault("VERIF_TIER", "quick")
    e.setdefault("VERIF_SEED", "1")
    e["PBT_OUT"] = f"{VERIF}/evidence"
    e["PBT_KNOWN"] = f"{VERIF}/known_findings.txt"
    e.update(kw)
    os.makedirs(e["PBT_OUT"], exist_ok=True)
    return subprocess.run([f"{BUILD}/bin{variant}/{pid}"] + list(extra), env=e, cwd=VERIF).returncode


def merge_evidence(pid, variant):
    """fold the sanitizer run's counts into the evidence file"""
    a, b = (f"{VERIF}/evidence/{pid}{v}.json" for v in ("", variant))
    try:
        x, y = json.load(open(a)), json.load(open(b))
    except (OSError, ValueError):
        return
    x["coverage"]["sanitizer_run"] = {k: y["coverage"][k] for k in ("evaluations", "distinct_nontrivial", "discarded")}
    x["wall_s"] += y["wall_s"]
    x["violations"] += y["violations"]
    json.dump(x, open(a, "w"), indent=1)
    os.remove(b)


def main():
    mode = sys.argv[1]
    if mode == "setup":
        build(all_pids())
        return 0
    pid = sys.argv[2]
    variant = os.environ.get("PBT_SAN", "")
    if mode == "build":
        build([pid] if pid != "all" else all_pids(), variant)
        return 0
    build([pid], variant)
    if mode == "replay":
        return run(pid, ["--replay", sys.argv[3]], variant)
    rc = run(pid, sys.argv[3:], variant)
    if rc == 0 and os.environ.get("VERIF_TIER") == "thorough" and not variant and not sys.argv[3:]:
        # second half of the thorough tier: fewer cases, other seed, under sanitizers
        build([pid], "asan")
        n = json.load(open(f"{VERIF}/evidence/{pid}.json"))["coverage"]["evaluations"]
        rc = run(pid, [], "asan", PBT_VARIANT="asan", PBT_CASES=str(max(200, n // 10)), PBT_DEADLINE="240",
                 VERIF_SEED=str(int(os.environ.get("VERIF_SEED", "1")) + 1000003))
        merge_evidence(pid, "asan")
    return rc


if __name__ == "__main__":
    sys.exit(main())
