#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
table = json.load(open(os.path.join(here, "gov", "claims.json")))
checks, na = [], []
for p in props:
    c = table[p["id"]]
    if "na" in c:
        na.append({"property": p["id"], "reason": c["na"]})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "bash check.sh " + p["id"],
        "thorough_cmd": "bash check.sh " + p["id"],
        "technique": c.get("technique", "contracts on the real Go code, discharged by a deductive verifier over go/ssa with SMT"),
        "level": c.get("level", "proof"),
        "level_note": c["note"],
    })
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {"guard": "verif", "enable": "no hook is compiled into /repo: contracts are laid over it (go/packages overlay, build tag verif) when the checks load it", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "see DESIGN.md",
}
open(os.path.join(here, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
