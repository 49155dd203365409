#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/checks.json and properties.jsonl."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(V + "/lib/checks.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
T = ("bounded exhaustive (stateless) model checking of the real code: {} "
     "compared with a reference model after every step")
m = {"version": 1,
     "setup_cmd": "python3 lib/check.py --setup",
     "hooks": {"guard": "LDT_VERIF_NONE", "enable": "no hooks are needed: the checks build the unmodified sources", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    c = checks.get(p["id"])
    if not c:
        m["not_applicable"].append({"property": p["id"], "reason": "check not built yet"})
        continue
    m["checks"].append({
        "property": p["id"],
        "quick_cmd": "python3 lib/check.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3 lib/check.py %s --tier thorough" % p["id"],
        "technique": T.format(c.get("what", "all cases within the bounds")),
        "level": c["level"],
        "level_note": c.get("note", "Exhaustive within the bounds that the evidence lists per scenario; nothing is sampled."),
    })
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "n/a")
