#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of claimed checks."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
sh = open(os.path.join(HERE, "check.sh")).read()
claimed = set()
for line in re.findall(r"^\s+((?:C\d\d\|?)+)\)", sh, re.M):
    claimed |= set(line.split("|"))
SEQ = "explicit-state model checking of the real contract code against a reference model"
ENUM = "exhaustive bounded enumeration of inputs on the real code against a reference model"
enum_ids = {"C26", "C27", "C28", "C29", "C31", "C32", "C33", "C34", "C35", "C36", "C38"}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in claimed:
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": ENUM if i in enum_ids else SEQ,
            "level": "model_checking",
            "level_note": "Exhaustive over the alphabets and depths listed in the evidence file; values outside the alphabets are not covered. "
                          "Trusted: the harness' reference model and, for contracts, its Stylus host (storage cache, calls, reverts, events).",
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed: the harness links the unmodified crates and supplies the vm_hooks imports."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
