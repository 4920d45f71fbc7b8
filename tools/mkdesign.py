#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design, the META of the checks, known_findings.json and the catch matrix."""
import importlib
import json
import os
import sys
import textwrap

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
D = os.path.join(HERE, "tools", "design")
rd = lambda n: open(os.path.join(D, n)).read()
w = lambda s: textwrap.fill(s, 120, break_long_words=False, break_on_hyphens=False)
b = json.loads(rd("bounds.json"))
out = [rd("head.md"), "## The properties and how each is decided\n"]
for p in map(json.loads, open(os.path.join(HERE, "properties.jsonl"))):
    i = p["id"]
    if not os.path.exists(os.path.join(HERE, "psa", "checks", i.lower() + ".py")):
        continue
    m = importlib.import_module("psa.checks." + i.lower()).META
    out.append(f"### {i} {p['title']}\n")
    out.append(w("*Technique.* " + m["technique"] + ".") + "\n")
    out.append(w("*How.* " + m["explanation"]) + "\n")
    if m.get("rules"):
        out.append("*Rules.*\n")
        r = m["rules"]
        for x in (r.items() if isinstance(r, dict) else r):
            out.append(textwrap.fill(f"`{x[0]}`: {x[1]}" if isinstance(x, (tuple, list)) else str(x), 120, initial_indent="* ",
                                     subsequent_indent="  ", break_long_words=False))
        out.append("")
    out.append(w("*Bounds.* " + b[i][1] + ". *Cost.* " + b[i][0] + ".") + "\n")
    out.append(w("*Why tests cannot.* " + p["why_tests_cant"]) + "\n")
def table():
    rows = ["| bug | property | needs, in order to show | caught by |", "|---|---|---|---|"]
    for i in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        m = json.load(open(os.path.join(HERE, "seeded", i, "meta.json")))
        rows.append(f"| {i} | {m['property']} | {m['needs']} | {'check ' + m['property'] if i not in MISSED else 'MISSED'} |")
    return "\n".join(rows)


MISSED = ()  # as `tools/mkseed.py recheck` reports them
out.append(rd("matrix.md").replace("@MATRIX@", table()))
fixed = "\n".join("* " + f.replace("fixed: property=", "") for f in json.load(open(os.path.join(HERE, "known_findings.json")))["fixed"])
out.append(rd("tail.md").replace("@FIXED@", fixed))
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out))
