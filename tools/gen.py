#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [VERIF, HERE]
sys.dont_write_bytecode = True
from cdnsa import checks  # noqa: E402
from props import P, NA, NOTE  # noqa: E402

have = checks.ids()
with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p in P + NA:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None},
        }) + "\n")
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": []}
for p in P:
    if p["id"] not in have:
        m["not_applicable"].append({"property": p["id"], "reason": "the analysis is not built yet"})
        continue
    fn, tech = checks.get(p["id"])
    m["checks"].append({
        "property": p["id"],
        "quick_cmd": f"./check.py {p['id']}",
        "thorough_cmd": f"./check.py {p['id']} --tier thorough",
        "technique": "static analysis: " + tech,
        "level": "other",
        "level_note": p["note"] + " " + NOTE,
    })
for p in NA:
    m["not_applicable"].append({"property": p["id"], "reason": p["reason"]})
m["notes"] = "No hooks: the analyses read the compiler's intermediate representation of the unmodified source."
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(m["checks"]), "claimed,", len(m["not_applicable"]), "not applicable")

# the table of planted bugs in DESIGN.md
import glob, os

design = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "DESIGN.md")
text = open(design).read()
head_ = text[: text.index("| bug | caught by |")]
rows = []
for f in sorted(glob.glob(os.path.join(os.path.dirname(design), "seeded/*/meta.json"))):
    m = json.load(open(f))
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['needs']} |\n")
if rows:
    open(design, "w").write(head_ + "| bug | caught by | needs |\n|---|---|---|\n" + "".join(rows))
