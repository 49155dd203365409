#!/usr/bin/env python3
"""Development tool: write /verif/seeded/<id>/ from a description and confirm it
in a scratch copy of /repo (bind-mounted at /repo in a private mount namespace).
usage: plant.py BUGS.py [id...]     BUGS.py defines BUGS = [dict(...), ...]"""
import json, os, subprocess, sys, shutil
W = "/tmp/plantw"
SEED = "/verif/seeded"
DEMO = r'''#!/bin/bash
# exit 0: the property holds on the built tree; nonzero: it does not
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"; trap 'rm -rf "$tmp"' EXIT
I=/repo/include
g++ -std=c++17 -O1 -w -DUSE_BOOST @FLAGS@ -I$I -I$I/math -I$I/blas -I$I/math/statistics \
  -I$I/math/statistics/inference -I$I/math/statistics/inference/models \
  "$here/demo.cpp" -o "$tmp/demo" -L/repo/_build/cpp -lldt -Wl,-rpath,/repo/_build/cpp || exit 2
cd "$tmp" && timeout 200 ./demo
'''
RDEMO = r'''#!/bin/bash
# exit 0: the property holds on the built tree; nonzero: it does not
here="$(cd "$(dirname "$0")" && pwd)"
export R_LIBS=/repo/_build/R/lib LC_ALL=C.UTF-8 TZ=UTC
timeout 280 Rscript --vanilla "$here/demo.R"
'''
def sh(cmd, **k):
    return subprocess.run(["unshare", "-Urm", "bash", "-c",
        "mount --bind %s /repo && " % W + cmd], capture_output=True, text=True, **k)
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    if os.path.isdir(W):
        shutil.rmtree("/tmp/plantw")
    subprocess.check_call(["cp", "-a", "/repo", W])
    g = lambda *a: subprocess.run(["git", "-C", W] + list(a), capture_output=True, text=True, check=True).stdout
    g("checkout", "-q", "--", ".")
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for b in ns["BUGS"]:
        if want and b["id"] not in want: continue
        d = os.path.join(SEED, b["id"]); os.makedirs(d, exist_ok=True)
        g("checkout", "-q", "--", ".")
        okrep = True
        for f, old, new in b["edits"]:
            p = os.path.join(W, f); s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "BAD EDIT", f, s.count(old)); okrep = False; break
            open(p, "w").write(s.replace(old, new))
        if not okrep: continue
        open(os.path.join(d, "patch.diff"), "w").write(g("diff"))
        if "cpp" in b:
            open(os.path.join(d, "demo.cpp"), "w").write(b["cpp"])
            dm = DEMO.replace("@FLAGS@", b.get("flags", ""))
        else:
            open(os.path.join(d, "demo.R"), "w").write(b["r"]); dm = RDEMO
        open(os.path.join(d, "demo.sh"), "w").write(dm); os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        demo = "cd /repo && cp -r %s /tmp/plantdemo.$$ && bash /tmp/plantdemo.$$/demo.sh; r=$?; rm -rf /tmp/plantdemo.$$; exit $r" % d
        r = sh("bash /opt/vp/build.sh >/tmp/plant_build.log 2>&1")
        if r.returncode: print(b["id"], "BUILD FAILED"); continue
        r1 = sh(demo)
        r2 = sh("bash /opt/vp/test.sh /tmp/plant_t.json >/dev/null 2>&1")
        t = json.load(open("/tmp/plant_t.json"))
        missing = base - set(t["passed"])
        rc = None
        out = ""
        if not b.get("nocheck"):
            c = sh("cd /verif && timeout 900 python3 lib/check.py %s --tier quick" % b["property"])
            rc = c.returncode; out = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")][:2]
        g("checkout", "-q", "--", ".")
        sh("bash /opt/vp/build.sh >/tmp/plant_build.log 2>&1")
        r0 = sh(demo)
        ok = r1.returncode != 0 and r1.returncode != 2 and r0.returncode == 0 and not missing
        print("%-28s %s demo(bad)=%d demo(good)=%d broken_tests=%s check=%s %s" % (b["id"], "OK " if ok else "NOT", r1.returncode, r0.returncode, sorted(missing)[:4], rc, out), flush=True)
        if not ok: print((r1.stdout + r1.stderr)[-600:], (r0.stdout + r0.stderr)[-600:])
    shutil.rmtree("/tmp/plantw")
main()
