#!/usr/bin/env python3
"""replay.py FILE: executes a recorded violation again, in a fresh process; exit 1 if it reproduces."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from check import ask

rep = json.load(open(sys.argv[1]))
p = rep["property"]
if rep.get("plan") is not None:
    r = ask(p, {"cmd": "plan", "plan": rep["plan"]}, 400)
else:
    r = ask(p, {"cmd": "run", "i": rep["run"], "seed": rep["seed"], "tier": rep["tier"]}, 2 * rep.get("hang", 200))
if r is None:
    print("REPRODUCED (does not finish)")
    sys.exit(1)
if r.get("error"):
    print(r["error"])
    sys.exit(2)
for l in r.get("trace", []):
    print("  " + l)
if r.get("viol"):
    print("REPRODUCED: %s%s" % (r["viol"], "" if r["digest"] == rep.get("digest") else "  (execution differs from the recorded one)"))
    sys.exit(1)
print("not reproduced: property held")
