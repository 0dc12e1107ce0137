#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 bin/check.py --setup", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: stack switches are observed through a link-time wrapper. Known findings and fixes: known_findings.jsonl."}
for i in ids:
    if i not in props.PROPS:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
        continue
    p = props.PROPS[i]
    builds = sorted({r["build"] for r in p["runs"]})
    m["checks"].append({
        "property": i, "quick_cmd": "python3 bin/check.py %s" % i,
        "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py %s" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": p.get("technique", "runtime monitoring: model/ledger oracle over random executions of the real code (builds: %s)" % ", ".join(builds)),
        "level": p.get("level", "exploration"),
        "level_note": p.get("note", "held on the executions produced; " + "; ".join(p.get("assumptions", [])) if p.get("assumptions") else
                            "held on the executions produced (counts in the evidence file), nothing about executions not produced")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
