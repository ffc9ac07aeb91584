#!/usr/bin/env python3
"""Writes data/literals.json from /repo."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
import literals
r = literals.scan("/repo")
json.dump({k: {"v": {str(a): n for a, n in sorted(x["v"].items())}, "s": x["s"]} for k, x in r.items()}, open(V + "/data/literals.json", "w"), indent=0, sort_keys=True)
