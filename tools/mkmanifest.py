#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
NA = {
    "C26": "Running time and memory are runtime quantities; no sound static bound on the cost of the XML parser, the bytearray "
           "operations and the interpreter is in reach, so this family cannot decide it here.",
    "C27": "Quantifies over programs (Windows PowerShell versions) whose source is not part of this repository; nothing static "
           "about /repo can decide it.",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(HERE, "psa", "checks", i.lower() + ".py")):
        m = importlib.import_module("psa.checks." + i.lower()).META
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i} --tier quick",
            "thorough_cmd": f"python3 check.py {i} --tier thorough",
            "technique": m.get("technique", "static analysis: path-sensitive abstract interpretation of the source"),
            "level": m["level"],
            "level_note": m.get("note") or m["explanation"],
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "Not claimed: its analysis is not built yet.")})
json.dump({"version": 1, "setup_cmd": "python3 -c 'import ast, sys; sys.exit(0)'", "checks": checks, "not_applicable": na,
           "notes": "The checks read /repo/src on every run; nothing of it is imported or executed."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
