#!/usr/bin/python3
"""Writes MANIFEST.json from harness/registry.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
sys.dont_write_bytecode = True
import registry
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    s = registry.CHECKS.get(i)
    if s:
        checks.append({"property": i, "quick_cmd": "bin/check " + i, "thorough_cmd": "VERIF_TIER=thorough bin/check %s --thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": s.get("technique", "stateless model checking of the real code: exhaustive bounded enumeration against an independent reference model"),
            "level": s.get("level", "model_checking"),
            "level_note": s.get("note", registry.NOTE)})
    else:
        na.append({"property": i, "reason": registry.NOT_APPLICABLE.get(i, "the check is not built yet")})
m = {"version": 1, "setup_cmd": "bin/setup",
    "hooks": {"guard": "none", "enable": "no hooks: the checks compile /repo's sources as they are and interpose library calls at link time", "source_commits": []},
    "checks": checks, "not_applicable": na,
    "notes": "bin/check ID builds from /repo's working tree into /verif/build/ID (removed afterwards) and explores exhaustively within the bounds of DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
