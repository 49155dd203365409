#!/usr/bin/env python3
"""Runs an R exploration: stages and installs the R packages from /repo's
working tree (sources copied as CMakeLists.txt does), runs every scenario of
the script in an R process of its own and merges what they report.
usage: run_r.py SCRIPT.R PACKAGES OUT.json   (PACKAGES: tdata or tdata,ldt)"""
import atexit
import concurrent.futures as cf
import glob
import hashlib
import json
import fnmatch
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LDT_REPO", "/repo")
BASE = os.path.join(VERIF, "build", "r")
HERE = os.path.join(VERIF, "rlib")
DIRS = {"tdata": "Rpackage_F", "ldt": "Rpackage"}
NOT_LDT = {"api.cpp", "expsmoothing.cpp", "tsfilter.cpp", "mnormal.cpp",
           "empirical103.cpp", "histogram.cpp", "ldt_base.cpp",
           "variables.cpp", "variable.cpp"}


def sources(name):
    """{relative path in the package: file in the repository}"""
    out = {}
    top = os.path.join(REPO, DIRS[name])
    for d, ds, fs in os.walk(top):
        rel = os.path.relpath(d, top)
        if rel.split("/")[0] in ("tests", "vignettes", "data-raw", "man",
                                 ".Rproj.user", "man-roxygen"):
            continue
        for f in fs:
            r = os.path.normpath(os.path.join(rel, f))
            if r.startswith("src/") and not re.match(
                    r"src/(r_.*\.(cpp|h)|Makevars)$", r):
                continue  # a copy made by cmake
            if f in ("NAMESPACE", ".Rprofile", ".Rbuildignore", ".gitignore"):
                continue
            out[r] = os.path.join(d, f)
    for h in glob.glob(os.path.join(REPO, "include", "**", "*.h"),
                       recursive=True):
        b = os.path.basename(h)
        if b == "api.h" or (name == "ldt" and b in ("frequency.h",
                                                    "variable.h")):
            continue
        out.setdefault("src/" + b, h)
    for s in glob.glob(os.path.join(REPO, "src", "**", "*"), recursive=True):
        b = os.path.basename(s)
        if not s.endswith((".cpp", ".c", ".h")):
            continue
        part = os.path.relpath(s, os.path.join(REPO, "src")).split("/")[0]
        if name == "tdata":
            if part not in ("frequency", "variable", "helpers.cpp",
                            "array.cpp"):
                continue
        elif part == "frequency" or b in NOT_LDT:
            continue
        out["src/" + b] = s
    return out


def digest(src, more):
    h = hashlib.sha256(more.encode())
    for r in sorted(src):
        h.update(r.encode() + b"\0" + open(src[r], "rb").read() + b"\0")
    return h.hexdigest()[:24]


def install(names):
    libs, key = [], ""
    for name in names:
        src = sources(name)
        key = digest(src, key + open(HERE + "/roxy.R").read() + name)
        lib = os.path.join(BASE, name + "-" + key, "lib")
        libs.insert(0, lib)
        if os.path.exists(os.path.join(lib, name, "done")):
            continue
        for o in glob.glob(os.path.join(BASE, name + "-*")):
            shutil.rmtree(o)
        dst = os.path.join(BASE, name + "-" + key, name)
        for r, p in src.items():
            os.makedirs(os.path.dirname(os.path.join(dst, r)), exist_ok=True)
            shutil.copyfile(p, os.path.join(dst, r))
        os.makedirs(lib)
        mk = os.path.join(BASE, "Makevars")
        with open(mk, "w") as f:
            f.write("CXX17FLAGS = -g1 -O1\nCFLAGS = -g1 -O1\n")
        with open(os.path.join(dst, "NAMESPACE"), "w") as f:
            f.write("# Generated by roxygen2: do not edit by hand\n")
        env = dict(os.environ, R_LIBS=":".join(libs), R_MAKEVARS_USER=mk,
                   R_PROFILE_USER="", R_ENVIRON_USER="", MAKEFLAGS="-j8",
                   LANG="C.UTF-8", LC_ALL="C.UTF-8", TZ="UTC")
        desc = open(os.path.join(dst, "DESCRIPTION")).read()
        for cmd in (["Rscript", "--vanilla", HERE + "/roxy.R", dst],
                    ["R", "CMD", "INSTALL", "--no-docs", "--no-test-load",
                     "--no-staged-install", "--library=" + lib, dst]):
            r = subprocess.run(cmd, env=env, capture_output=True, text=True)
            if r.returncode:
                print("ERROR: %s failed\n%s\n%s" % (
                    " ".join(cmd), r.stdout[-3000:], r.stderr[-6000:]))
                sys.exit(70)
            with open(os.path.join(dst, "DESCRIPTION"), "w") as f:
                f.write(desc)
        open(os.path.join(lib, name, "done"), "w").close()
        shutil.rmtree(dst)
    return libs


def main():
    script, names, out = sys.argv[1:4]
    script = os.path.join(VERIF, script)
    libs = install(names.split(","))
    env = dict(os.environ, R_LIBS=":".join(libs), R_PROFILE_USER="",
               R_ENVIRON_USER="", LANG="C.UTF-8", LC_ALL="C.UTF-8", TZ="UTC",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               LDT_REPO=REPO)
    # the searches sleep for a second; see nosleep.c
    shim = os.path.join(BASE, "nosleep-%d.so" % os.getpid())
    r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", shim + ".tmp",
                        HERE + "/nosleep.c", "-ldl"], capture_output=True,
                       text=True)
    if r.returncode:
        print("ERROR: " + r.stderr)
        sys.exit(70)
    os.rename(shim + ".tmp", shim)
    atexit.register(os.unlink, shim)
    env["LD_PRELOAD"] = shim
    r = subprocess.run(["Rscript", "--vanilla", HERE + "/mc.R", script,
                        "--list"], env=env, capture_output=True, text=True)
    if r.returncode:
        print("ERROR: " + r.stderr[-3000:])
        sys.exit(70)
    scen = re.findall(r"^scenario (\S+)$", r.stdout, re.M)
    only = os.environ.get("VERIF_ONLY")
    if only:
        scen = [s for s in scen if fnmatch.fnmatch(s, only)]
    tier = os.environ.get("VERIF_TIER", "quick")

    def run(s):
        t0 = time.time()
        o = os.path.join(BASE, os.path.basename(script) + "." + s + ".json")
        for f in (o, o + ".case"):
            if os.path.exists(f):
                os.unlink(f)
        try:
            r = subprocess.run(
                ["Rscript", "--vanilla", HERE + "/mc.R", script, s, o],
                env=env, capture_output=True, text=True, errors="replace",
                timeout=300 if tier == "quick" else 7200)
            rc, err = r.returncode, r.stderr
        except subprocess.TimeoutExpired:
            rc, err = "timeout", ""
        if rc == 0 and os.path.exists(o):
            r = json.load(open(o)); r["wall"] = round(time.time() - t0, 1); return r
        case = ""
        if os.path.exists(o + ".case"):
            case = (open(o + ".case").read().splitlines() or [""])[-1]
        if os.path.exists(o + ".case") and "INTERNAL" not in err:
            # R itself died, or does not return, inside a call of the library
            return {"name": s, "states": 1, "checks": 1, "outcomes": 0,
                    "bound": "", "violations": [{
                        "key": "hang" if rc == "timeout" else "crash",
                        "case": case,
                        "msg": "R died (%s): %s" % (rc, err[-600:])}]}
        print("ERROR: scenario %s: %s %s" % (s, rc, err[-3000:]))
        return None

    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        res = list(ex.map(run, scen))
    tot = {"states": 0, "transitions": 0, "traces": 0, "checks": 0,
           "outcomes": 0, "exhaustive": True, "internal_error": False,
           "scenarios": [], "samples": [], "violations": []}
    for s, r in zip(scen, res):
        if r is None or r["states"] == 0:
            tot["internal_error"] = True
            continue
        tot["states"] += r["states"]
        tot["transitions"] += r["checks"]
        tot["traces"] += r["states"]
        tot["checks"] += r["checks"]
        tot["outcomes"] += r["outcomes"]
        tot["scenarios"].append({"name": s, "executions": r["states"],
                                 "bound": r["bound"],
                                 "wall": r.get("wall")})
        for v in r["violations"]:
            tot["violations"].append(dict(v, scenario=s, choices=[]))
        for c in (r.get("samples") or [])[:1]:
            tot["samples"].append(s + ": " + c)
    json.dump(tot, open(out, "w"), indent=1)


main()
