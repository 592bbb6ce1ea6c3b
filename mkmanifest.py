#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and analysis/props.py."""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "analysis"))
import props
ids = [json.loads(l)["id"] for l in open("properties.jsonl") if l.strip()]
checks, na = [], []
for i in ids:
    p = props.PROPS.get(i)
    if p is None:
        na.append({"property": i, "reason": props.NOT_APPLICABLE[i]})
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s" % i,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": p.get("technique", "abstract interpretation of the type-checked MIR against a specification, per path"),
        "level": p.get("level", "proof"),
        "level_note": p.get("note", props.NOTE_SHAPES if p.get("level") == "other" else props.NOTE),
    })
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
           "notes": "Static analysis only: c8s is compiled to MIR and never run. Undecided cases are listed in the evidence and never reported as violations."},
          open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
