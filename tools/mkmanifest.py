"""Writes MANIFEST.json from properties.jsonl and sim/meta.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sim.meta import META
T = {
 "C01": "deterministic simulation of the worker pool: seeded completion schedules, result checked against an independent best-of merge and the sequential search",
 "C02": "deterministic simulation of the worker pool: dispatch, pool limit and progress checked on the recorded history",
 "C03": "deterministic simulation of the worker pool with injected worker failures and refused submissions",
 "C04": "deterministic simulation of CPU counts and parallel map orders against an independent orbit enumeration",
 "C05": "deterministic simulation of thread interleavings at source lines, compared with solo runs in fresh process images",
 "C06": "deterministic simulation with seeded random streams and draw budget against an independent exact enumeration",
 "C07": "deterministic simulation of seeded stop/resume histories against the full set of vectors",
 "C08": "deterministic simulation of thread interleavings at source lines against independent symmetry groups",
 "C09": "deterministic simulation of thread interleavings at source lines against an independent variant model",
 "C10": "deterministic simulation of thread interleavings and query histories against an independent twin model",
 "C11": "deterministic simulation with asynchronous exceptions injected at seeded source lines",
 "C12": "deterministic simulation with aborts injected at seeded lines, output calls and worker results; later searches compared with fresh process images",
 "C13": "deterministic simulation of clock, log device faults, verbosity and CPU count; results compared with an unobserved run",
 "C14": "deterministic simulation of search histories, thread interleavings and log device faults; file contents compared with solo runs",
 "C15": "deterministic simulation of query/overwrite histories and interleavings on shared objects",
 "C25": "deterministic simulation of histories of related searches on long-lived simulated workers; answers compared with fresh process images",
 "C27": "deterministic simulation of copies, pickles and process hand-overs at seeded source lines and after injected interrupts; copies and originals judged by independent models",
 "C28": "deterministic simulation of call histories with injected interrupts, device, stream and worker failures and overlapping threads; process-wide state compared before and after",
 "C30": "deterministic simulation of calls nested at seeded source lines in the middle of other calls of the same thread; nested and outer answers compared with reference models and with solo calls in fresh process images",
 "C29": "deterministic simulation of search histories and thread interleavings with interrupts and device faults; displayed text per search compared with solo runs in fresh process images",
 "C26": "deterministic simulation of call histories, thread interleavings and interrupts at source lines; answers compared with fresh process images",
}
PURE = "A pure function of its arguments: no schedule, clock, I/O, randomness, fault or shared state takes part, so there is nothing for a simulator to decide; deciding it would be input testing or proof, not this technique."
NA = {"C16": PURE, "C17": PURE, "C18": PURE, "C19": PURE, "C20": PURE, "C21": PURE, "C22": PURE,
      "C23": PURE,
      "C24": "main_direct_para.py is a Python 2 script (print statements) and both it and solver.py import the sibling module by its bare name, which only Python 2 resolves; no interpreter here can load them, so there is nothing to simulate."}
checks = []
for k in sorted(T):
    assert k in META
    checks.append({"property": k, "quick_cmd": "python3 check.py %s quick" % k, "thorough_cmd": "python3 check.py %s thorough" % k,
                   "evidence_file": "evidence/%s.json" % k, "technique": T[k], "level": "exploration",
                   "level_note": "Seeded search over simulated executions of the unmodified library: %d runs (quick, at most %d s) or up to %d runs (thorough, at most %d s). "
                   "Assumes: %s. Trusts the reference models in sim/ref.py and the simulator; a pass is evidence over the explored seeds, not a proof." % (
                       META[k]["quick"]["runs"], META[k]["quick"]["cap"], META[k]["thorough"]["runs"], META[k]["thorough"]["cap"],
                       "; ".join(META[k]["assumptions"]) or "nothing further")})
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
assert sorted(ids) == sorted(list(T) + list(NA))
man = {"version": 1, "setup_cmd": "/opt/pypyvenv/bin/python -c 'import numpy'", "checks": checks,
       "not_applicable": [{"property": k, "reason": NA[k]} for k in sorted(NA)],
       "notes": "No hooks in /repo: every seam is reached from outside (see DESIGN.md). Replay a violation with: python3 replay.py <file>."}
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
