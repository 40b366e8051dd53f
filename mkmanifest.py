"""Writes MANIFEST.json from the check modules and properties.jsonl."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from vlib import core  # noqa: E402

NA = {}


def main():
    checks, na = [], []
    for line in open(os.path.join(VERIF, "properties.jsonl")):
        p = json.loads(line)["id"]
        if os.path.exists(os.path.join(VERIF, "checks", p.lower() + ".py")):
            m = core.load(p)
            checks.append({
                "property": p, "quick_cmd": "./run.sh " + p, "thorough_cmd": "./run.sh %s --tier thorough" % p,
                "evidence_file": "evidence/%s.json" % p, "technique": "runtime monitoring: " + m.TECH,
                "level": m.LEVEL,
                "level_note": "Every execution observed by the monitor satisfied the property; others are not excluded. "
                              "Assumes: " + "; ".join(m.ASSUME) + ".",
            })
        else:
            na.append({"property": p, "reason": NA.get(p, "The monitor for this property is not built yet.")})
    doc = {"version": 1, "setup_cmd": "./run.sh --setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: pipit is pure Python and everything is observed at its API, by wrapping calls, "
                    "or through the standard library (sys.monitoring, /proc, patched I/O) from outside. Findings and "
                    "repaired defects are in known_findings.txt."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")
    print(len(checks), "checks,", len(na), "not claimed")


main()
