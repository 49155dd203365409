#!/usr/bin/env python3
"""Build the harnesses of one property from /repo's working tree, explore, and
report.  usage: check.py <ID> [--tier quick|thorough] [--replay FILE]
exit 0: property held on everything explored; 1: VIOLATION; other: error."""
import concurrent.futures as cf
import fnmatch
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LDT_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CACHE = os.path.join(BUILD, "cache")
INC = ["include", "include/math", "include/blas", "include/math/statistics",
       "include/math/statistics/inference",
       "include/math/statistics/inference/models"]
# not part of the library build (CMakeLists.txt leaves them out)
EXCLUDE = {"api.cpp", "expsmoothing.cpp", "tsfilter.cpp", "mnormal.cpp"}

VARIANTS = {
    # memory errors are violations of their own
    "asan": (["-O1", "-g1", "-w", "-fsanitize=address",
              "-fno-omit-frame-pointer"], ["-fsanitize=address"]),
    "fast": (["-O2", "-w"], []),
    # library compiled with access hooks, run under our own scheduler
    "sched": (["-O1", "-g1", "-w", "-fopenmp", "-fsanitize=thread"],
              ["-Wl,--wrap=" + f for f in (
                  "pthread_mutex_lock pthread_mutex_unlock "
                  "__cxa_allocate_exception __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort "
                  "memcpy memmove memset dgemm_ dgemv_ dsymm_ dsyrk_ dgetrf_ "
                  "dgetri_ dposv_ dpotrf2_").split()]),
}


def die(msg, code=70):
    print("ERROR: " + msg)
    sys.exit(code)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree_hash(root, exts):
    out = []
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            if os.path.splitext(f)[1] in exts:
                p = os.path.join(d, f)
                out.append(os.path.relpath(p, root).encode() + b"\0" + read(p))
    return sha(*out)


def compile_one(job):
    src, obj, flags = job
    if os.path.exists(obj):
        os.utime(obj)
        return src, 0, ""
    cc = "gcc" if src.endswith(".c") else "g++"
    std = [] if src.endswith(".c") else ["-std=c++17"]
    tmp = obj + ".tmp%d.o" % os.getpid()
    r = subprocess.run([cc] + std + flags + ["-c", src, "-o", tmp],
                       capture_output=True, text=True)
    if r.returncode == 0:
        os.replace(tmp, obj)
    return src, r.returncode, r.stderr


def prune():
    try:
        fs = [os.path.join(CACHE, f) for f in os.listdir(CACHE)]
    except FileNotFoundError:
        return
    st = sorted(((os.stat(f).st_mtime, os.stat(f).st_size, f) for f in fs),
                reverse=True)
    tot = 0
    for m, s, f in st:
        tot += s
        if tot > 2500 * 1024 * 1024:
            os.unlink(f)


def build(variant, harness):
    """returns the path of the executable"""
    cflags, lflags = VARIANTS[variant]
    os.makedirs(CACHE, exist_ok=True)
    srcs = []
    for d, ds, fs in os.walk(os.path.join(REPO, "src")):
        for f in fs:
            if f.endswith((".cpp", ".c")) and f not in EXCLUDE:
                srcs.append(os.path.join(d, f))
    srcs.sort()
    inc = ["-I" + os.path.join(REPO, i) for i in INC]
    base = cflags + ["-DUSE_BOOST"] + inc
    incl_hash = tree_hash(os.path.join(REPO, "include"), {".h", ".hpp"})
    # a source may include a neighbouring header
    incl_hash += tree_hash(os.path.join(REPO, "src"), {".h", ".hpp"})
    jobs, objs = [], []
    for s in srcs:
        k = sha(incl_hash, " ".join(base), s, read(s))
        o = os.path.join(CACHE, k + ".o")
        jobs.append((s, o, base))
        objs.append(o)
    hs = harness if isinstance(harness, list) else [harness]
    libhash = tree_hash(os.path.join(VERIF, "lib"), {".h"}) + \
        tree_hash(os.path.join(VERIF, "harness"), {".h"})
    hobjs = []
    for h in hs:
        p = os.path.join(VERIF, h)
        fl = list(base) + ["-I" + os.path.join(VERIF, "lib"),
                           "-I" + os.path.join(VERIF, "harness")]
        if variant == "sched":  # harness and runtime themselves are not hooked
            fl = [f for f in fl if f not in ("-fsanitize=thread",)]
        k = sha(incl_hash, libhash, " ".join(fl), p, read(p))
        o = os.path.join(CACHE, k + ".o")
        jobs.insert(0, (p, o, fl))
        hobjs.append(o)
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        res = list(ex.map(compile_one, jobs))
    bad = [r for r in res if r[1] != 0]
    if bad:
        for s, c, e in bad[:3]:
            sys.stderr.write(s + "\n" + e[:4000] + "\n")
        die("compilation failed: " + ", ".join(b[0] for b in bad))
    exe_key = sha(*(hobjs + objs + lflags))
    exe = os.path.join(CACHE, exe_key + ".exe")
    if not os.path.exists(exe):
        # archive so that only what is needed is linked
        tmp = exe + ".tmp%d" % os.getpid()
        arc = tmp + ".a"
        subprocess.run(["ar", "qc", arc] + objs, check=True)
        lib = ["-Wl,--start-group", arc, "-Wl,--end-group"]
        if variant == "sched":  # hooked copies of inline functions win
            lib = []
            hobjs = objs + hobjs
        link = ["g++", "-o", tmp] + hobjs + lib + lflags + \
            ["-llapack", "-lblas", "-lpthread", "-ldl"]
        r = subprocess.run(link, capture_output=True, text=True)
        os.unlink(arc)
        if r.returncode != 0:
            sys.stderr.write(r.stderr[:6000] + "\n")
            die("link failed")
        os.replace(tmp, exe)
    else:
        os.utime(exe)
    return exe


def load_known(pid):
    """known findings: [(key glob, description)] (open ones only)"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)$", line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    os.environ["OPENBLAS_NUM_THREADS"] = "1"
    os.environ["OMP_NUM_THREADS"] = "1"
    os.environ.setdefault(
        "ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0:exitcode=99:"
        "allocator_may_return_null=0:detect_stack_use_after_return=0")
    args = sys.argv[1:]
    pid = args[0]
    if pid == "--setup":  # nothing to prepare: every check builds what it needs
        for t in ("g++", "ar"):
            if not shutil.which(t):
                die("missing " + t)
        os.makedirs(CACHE, exist_ok=True)
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    only = None
    for i, a in enumerate(args):
        if a == "--tier":
            tier = args[i + 1]
        if a == "--replay":
            replay = args[i + 1]
        if a == "--only":
            only = args[i + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    props = json.load(open(os.path.join(VERIF, "lib", "checks.json")))
    if pid not in props:
        die("unknown property " + pid)
    cfg = props[pid]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    prune()

    if replay:
        info = json.load(open(replay))
        part = cfg["parts"][info["part"]]
        return run_replay(pid, cfg, part, info, tier)

    known = load_known(pid)
    results = []
    for pi, part in enumerate(cfg["parts"]):
        if part.get("tier") == "thorough" and tier != "thorough":
            continue
        if "cmd" in part:
            r = run_cmd_part(pid, pi, part, tier, known, seed)
        else:
            r = run_harness_part(pid, pi, part, tier, known, only)
        results.append((pi, part, r))

    states = sum(r["states"] for _, _, r in results)
    trans = sum(r["transitions"] for _, _, r in results)
    traces = sum(r["traces"] for _, _, r in results)
    checks = sum(r.get("checks", 0) for _, _, r in results)
    outcomes = sum(r.get("outcomes", 0) for _, _, r in results)
    viols, seen_known = [], {}
    for pi, part, r in results:
        for v in r["violations"]:
            kn = next((k for k in known if fnmatch.fnmatchcase(v["key"], k[0])),
                      None)
            if kn:
                seen_known.setdefault(kn, []).append(v)
            else:
                viols.append((pi, v))
    internal = any(r.get("internal_error") for _, _, r in results)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": cfg["level"],
        "coverage": {
            "states": states, "transitions": trans,
            "traces_validated_against_impl": traces,
            "oracle_comparisons": checks,
            "distinct_outcomes": outcomes,
            "exhaustive": not internal and
            all(r.get("exhaustive", False) for _, _, r in results),
            "scenarios": [s for _, _, r in results for s in r["scenarios"]],
            "samples": [s for _, _, r in results for s in r["samples"]][:24],
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(viols),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s tier=%s states=%d transitions=%d traces=%d comparisons=%d "
          "wall=%.1fs" % (pid, tier, states, trans, traces, checks,
                          time.time() - t0))
    for s in ev["coverage"]["scenarios"]:
        print("  %-34s executions=%-9d %s" % (s["name"], s["executions"],
                                             s.get("bound", "")))
    for k, vs in seen_known.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, k[1]))
    if viols:
        rdir = os.path.join(BUILD, "replay")
        os.makedirs(rdir, exist_ok=True)
        shown = set()
        n = 0
        for pi, v in viols:
            if (v["scenario"], v["key"]) in shown:
                continue
            shown.add((v["scenario"], v["key"]))
            rp = os.path.join(rdir, "%s-%d.json" % (pid, n))
            n += 1
            with open(rp, "w") as f:
                json.dump({"property": pid, "part": pi,
                           "scenario": v["scenario"], "key": v["key"],
                           "msg": v["msg"], "case": v["case"], "tier": tier,
                           "choices": v.get("choices", [])}, f, indent=1)
            print("  %s [%s] %s\n     case: %s" % (v["scenario"], v["key"],
                                                  v["msg"], v["case"]))
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            if n >= 12:
                break
        return 1
    if internal:
        die("harness reported an internal error (see build/*.log)")
    return 0


def run_harness_part(pid, pi, part, tier, known, only):
    exe = build(part.get("variant", "asan"), part["harness"])
    out = os.path.join(BUILD, "%s-%d.out.json" % (pid, pi))
    kf = os.path.join(BUILD, "%s.known" % pid)
    with open(kf, "w") as f:
        f.write("".join(k[0] + "\n" for k in known))
    for i in range(64):
        try:
            os.unlink(out + ".log%d" % i)
        except FileNotFoundError:
            pass
    cmd = [exe, "--tier", tier, "--out", out, "--known", kf, "--workers",
           str(part.get("workers", 8)), "--hang", str(part.get("hang", 120)),
           "--deadline", str(part.get("deadline", 420) if tier == "quick"
                             else part.get("deadline_thorough", 5400))]
    o = only or part.get("only")
    if o:
        cmd += ["--only", o]
    r = subprocess.run(cmd)
    if r.returncode not in (0, 77):
        die("harness failed with %d" % r.returncode)
    res = json.load(open(out))
    if r.returncode == 77:
        res["internal_error"] = True
    # replay before report
    conf = []
    hangs_only = []
    done = {}
    for v in res["violations"]:
        kk = (v["scenario"], v["key"])
        if done.get(kk, 0) >= 2:
            continue
        done[kk] = done.get(kk, 0) + 1
        rf = out + ".replay"
        with open(rf, "w") as f:
            f.write("scenario %s\nchoices %d %s\n" % (
                v["scenario"], len(v["choices"]),
                " ".join(map(str, v["choices"]))))
        try:
            rr = subprocess.run([exe, "--tier", tier, "--replay", rf],
                                capture_output=True, text=True,
                                errors="replace",
                                timeout=300 if v["key"].startswith("hang") else 120)
            v["reproduced"] = rr.returncode != 0
            if v["key"].startswith("crash") and rr.returncode != 0:
                m = re.search(r"(ERROR: AddressSanitizer[^\n]*)", rr.stderr)
                if m:
                    v["msg"] += " | " + m.group(1)
        except subprocess.TimeoutExpired:
            v["reproduced"] = True
        if v["key"].startswith("hang") and not v["reproduced"]:
            hangs_only.append(v)  # slow machine, not a hang
            continue
        if not v["reproduced"]:
            v["msg"] += " (seen once, not reproduced in isolation)"
        conf.append(v)
    res["violations"] = conf
    if hangs_only and not conf:
        res["internal_error"] = True
    return res


def run_cmd_part(pid, pi, part, tier, known, seed):
    """a part that is a script; it writes the same JSON as a harness"""
    out = os.path.join(BUILD, "%s-%d.out.json" % (pid, pi))
    if os.path.exists(out):
        os.unlink(out)
    env = dict(os.environ, VERIF_TIER=tier, VERIF_SEED=str(seed))
    r = subprocess.run([os.path.join(VERIF, part["cmd"][0])] + part["cmd"][1:] +
                       [out], env=env)
    if r.returncode != 0 or not os.path.exists(out):
        die("part %s failed with %d" % (part["cmd"][0], r.returncode))
    res = json.load(open(out))
    return res


def run_replay(pid, cfg, part, info, tier):
    if "cmd" in part:
        print(json.dumps(info, indent=1))
        return run_and_filter(pid, part, info)
    exe = build(part.get("variant", "asan"), part["harness"])
    rf = os.path.join(BUILD, "%s.replay" % pid)
    with open(rf, "w") as f:
        f.write("scenario %s\nchoices %d %s\n" % (
            info["scenario"], len(info["choices"]),
            " ".join(map(str, info["choices"]))))
    return subprocess.run([exe, "--tier", info.get("tier", tier), "--replay",
                           rf]).returncode


def run_and_filter(pid, part, info):
    out = os.path.join(BUILD, "%s-replay.json" % pid)
    env = dict(os.environ, VERIF_TIER=info.get("tier", "quick"),
               VERIF_ONLY=info["scenario"])
    r = subprocess.run([os.path.join(VERIF, part["cmd"][0])] +
                       part["cmd"][1:] + [out], env=env)
    if r.returncode:
        return r.returncode
    vs = [v for v in json.load(open(out))["violations"]
          if v["key"] == info["key"]]
    for v in vs[:5]:
        print("REPRODUCED", v["key"], v["msg"], v["case"])
    return 1 if vs else 0


if __name__ == "__main__":
    sys.exit(main())
