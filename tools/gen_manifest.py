#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules present and the not-applicable table below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from manifest_data import TECH, NA
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    if os.path.exists(os.path.join(V, "engine", "checks", p.lower() + ".py")):
        t, note = TECH[p]
        checks.append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                       "technique": t, "level": "other", "level_note": note})
done = {c["property"] for c in checks}
na = [{"property": p, "reason": NA.get(p, "check under construction")} for p in props if p not in done]
m = {"version": 1, "setup_cmd": "engine/build.sh", "checks": checks, "not_applicable": na,
     "notes": "Static analysis only: a libTooling AST dumper (engine/wfdump.cc), a value-graph evaluator and per-property rules. known_findings.txt lists recorded and repaired defects."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks;", [x["property"] for x in na], "not claimed")
