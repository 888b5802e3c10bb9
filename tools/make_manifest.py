#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    f = os.path.join(HERE, "checks", p["id"].lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": p["id"], "reason": "no check built yet; the technique applies (see DESIGN.md)"})
        continue
    src = open(f).read()
    tech = re.search(r'^TECHNIQUE = \(?((?:\s*"[^"\n]*"\n?)+)\)?', src, re.M)
    note = re.search(r'^LEVEL_NOTE = \(?((?:\s*"[^"\n]*"\n?)+)\)?', src, re.M)
    level = re.search(r'^LEVEL = "([a-z_]+)"', src, re.M)
    cat = lambda m: "".join(re.findall(r'"([^"\n]*)"', m.group(1)))
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 check.py %s" % p["id"],
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": cat(tech),
        "level": level.group(1),
        "level_note": cat(note),
    })
m = {
    "version": 1,
    "setup_cmd": "python3 vt/build.py server:rel server:asan shim: shim:asan",
    "hooks": {"guard": "TT_VERIF", "enable": "no hooks are needed: the checks observe the unmodified server from outside and through a preloaded library", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "All checks are property-based tests or fuzzers over the real server built from /repo; see DESIGN.md.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(na), "not applicable")
