#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
import checks
NOTE = {
 "lockstep": ("TLA+/TLC: model-checked specification, lockstep conformance, trace validation",
              "The specification is model-checked within bounds; the library is compared with the specification's exported tables over the listed input families (complete for short strings and for all code points, sampled beyond), and TLC judges every disagreement and a sample of the agreements. Assumes that inputs outside these families behave like those inside."),
 "rel": ("TLA+/TLC: relational specification, lockstep conformance, trace validation",
         "As for the lockstep checks, but the events relate several calls of the library to each other, so that only a breach of the relation itself is reported."),
}
KIND = {"C06": "rel", "C07": "rel", "C11": "rel", "C14": "rel"}
NOTES = getattr(checks, "NOTES", {})
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": [],
     "notes": "TLA+ (TLC) throughout; no hooks in /repo are needed: the checks compile /repo's sources unchanged. Defects found were repaired in /repo ('fix:' commits) or are listed in known_findings.json."}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        t, n = NOTES.get(i) or NOTE[KIND.get(i, "lockstep")]
        m["checks"].append({"property": i, "quick_cmd": f"python3 run.py {i} quick", "thorough_cmd": f"python3 run.py {i} thorough",
                            "evidence_file": f"evidence/{i}.json", "technique": t, "level": "model_checking", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": "check under construction"})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
