#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GEN = "HeuristicFlow/src/Genetic/"
PSO = "HeuristicFlow/src/PSO/"
AOS = "HeuristicFlow/src/AOS/"
GLO = "HeuristicFlow/src/Global/"
EA = "HeuristicFlow/src/EAGlobal/"
MAT = "HeuristicFlow/src/SimpleMatrix/"

PROPS = []
NA = []


def prop(pid, title, statement, over, text, why, files, mech, observe, technique, level, note, hook=None):
    PROPS.append(dict(
        line={"id": pid, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe, "hook_needed": hook}},
        technique=technique, level=level, note=note))


exec(open(os.path.join(ROOT, "tools", "props.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p["line"]) + "\n")
na_ids = {x["property"] for x in NA}
man = {"version": 1, "setup_cmd": "bin/setup",
       "checks": [{"property": p["line"]["id"],
                   "quick_cmd": "VERIF_TIER=quick bin/check " + p["line"]["id"],
                   "thorough_cmd": "VERIF_TIER=thorough bin/check " + p["line"]["id"],
                   "technique": p["technique"], "level": p["level"], "level_note": p["note"]}
                  for p in PROPS if p["line"]["id"] not in na_ids],
       "not_applicable": NA}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(PROPS), "properties,", len(man["checks"]), "checks")
