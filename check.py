#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   (VERIF_SEED, VERIF_TIER, VERIF_JOBS)

Seeded search over simulated runs.  Exit 0: property held on every run; exit 1: a
VIOLATION line with a replay file; exit 2: the machinery itself failed.
"""
import json, os, select, subprocess, sys, tempfile, shutil, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
HERE = os.path.dirname(os.path.abspath(__file__))
PYPY = "/opt/pypyvenv/bin/python"
OUT = os.environ.get("VERIF_OUT", HERE)      # where evidence and replay files go
from sim.meta import META
UNTRACED = ("C01", "C02", "C03", "C04", "C06", "C07", "C13", "C25")


def child_env(hashseed="0"):
    e = dict(os.environ)
    e.update(PYTHONHASHSEED=hashseed, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
             PYTHONNOUSERSITE="1", TZ="UTC")
    e.pop("PYTHONPATH", None)
    return e


class Worker:
    def __init__(self, prop, hashseed="0"):
        # PyPy's JIT delivers line events imprecisely; workloads that are scheduled by line run without it
        jit = [] if prop in UNTRACED else ["--jit", "off"]
        self.p = subprocess.Popen([PYPY] + jit + [os.path.join(HERE, "sim", "worker.py"), prop], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=child_env(hashseed), cwd=HERE)
        os.set_blocking(self.p.stdout.fileno(), False)
        self.buf = b""
        self.job = None
        self.t0 = 0

    def send(self, m):
        self.job = m
        self.t0 = time.time()
        self.p.stdin.write((json.dumps(m) + "\n").encode())
        self.p.stdin.flush()

    def poll(self):
        """a reply, or None, or 'dead'"""
        try:
            d = self.p.stdout.read()
        except BlockingIOError:
            d = None
        if d:
            self.buf += d
        if b"\n" in self.buf:
            line, self.buf = self.buf.split(b"\n", 1)
            self.job = None
            return json.loads(line)
        if d == b"" or self.p.poll() is not None:
            return "dead"
        return None

    def err(self):
        try:
            os.set_blocking(self.p.stderr.fileno(), False)
            return (self.p.stderr.read() or b"").decode()[-2000:]
        except Exception:
            return ""

    def kill(self):
        try:
            self.p.kill()
            self.p.wait()
        except Exception:
            pass


def ask(prop, m, timeout, hashseed="0"):
    """one request in a fresh process; None if it does not answer"""
    w = Worker(prop, hashseed)
    try:
        w.send(m)
        while time.time() - w.t0 < timeout:
            select.select([w.p.stdout], [], [], 1.0)
            r = w.poll()
            if r == "dead":
                return {"error": "worker died: " + w.err()}
            if r is not None:
                return r
        return None
    finally:
        w.kill()


def known_findings(prop):
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                out.append(l[len("finding: "):])
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    jobs = int(os.environ.get("VERIF_JOBS", str(min(8, os.cpu_count() or 1))))
    meta = META[prop]
    conf = meta[tier]
    runs = int(os.environ.get("VERIF_RUNS", conf["runs"]))
    cap = float(os.environ.get("VERIF_CAP", conf["cap"]))
    hang = conf.get("hang", 90)
    t0 = time.time()
    todo = list(range(runs))
    done = {}
    again = {}             # determinism re-runs
    errors = []
    hung = []
    viols = []
    unreproduced, found = [], None
    workers = [Worker(prop) for _ in range(jobs)]
    nextjob = 0
    rerun_every = max(1, runs // 12)

    try:
        while True:
            stop = bool(viols or errors) or time.time() - t0 > cap
            busy = False
            for k, w in enumerate(workers):
                if w.job is None and not stop and nextjob < runs:
                    w.send({"cmd": "run", "i": nextjob, "seed": seed, "tier": tier, "want_plan": nextjob < 3})
                    nextjob += 1
                if w.job is not None:
                    busy = True
            if not busy:
                # a failure counts once it happens again in fresh processes; without one the search goes on
                for v in sorted(viols, key=lambda v: v["i"]):
                    rep = confirm(prop, v, seed, tier, hang)
                    if rep is not None:
                        found = (v, rep)
                        break
                    unreproduced.append(v["i"])
                if found or errors or not viols or len(unreproduced) > 5:
                    break
                viols = []
                continue
            select.select([w.p.stdout for w in workers if w.job is not None], [], [], 1.0)
            for k, w in enumerate(workers):
                if w.job is None:
                    continue
                job = w.job
                r = w.poll()
                if r == "dead":
                    errors.append({"i": job["i"], "error": "worker died: " + w.err()})
                    w.kill()
                    workers[k] = Worker(prop)
                elif r is not None:
                    if "error" in r:
                        errors.append(r)
                    else:
                        done[r["i"]] = r
                        if r["viol"]:
                            viols.append(r)
                elif time.time() - w.t0 > hang:
                    hung.append(job["i"])
                    w.kill()
                    workers[k] = Worker(prop)
                    viols.append({"i": job["i"], "viol": "hang", "hang": True})
        # determinism: some runs again, in other processes with another hash seed
        if not found and not errors:
            sample = sorted(done)[::rerun_every][:12]
            ws = [Worker(prop, "4242") for _ in range(min(jobs, len(sample)))]
            pend = list(sample)
            end = time.time() + hang
            while (pend or any(w.job for w in ws)) and time.time() < end:
                for w in ws:
                    if w.job is None and pend:
                        w.send({"cmd": "run", "i": pend.pop(0), "seed": seed, "tier": tier})
                act = [w.p.stdout for w in ws if w.job is not None]
                if not act:
                    break
                select.select(act, [], [], 1.0)
                for w in ws:
                    if w.job is not None:
                        r = w.poll()
                        if r == "dead":
                            w.job = None
                        elif r is not None and "error" not in r:
                            again[r["i"]] = r
            for w in ws:
                w.kill()
    finally:
        for w in workers:
            w.kill()

    code = 0
    lines = []
    mism = [i for i in again if again[i]["digest"] != done[i]["digest"]]
    replay_path = None
    if errors:
        e = errors[0]
        print("MACHINERY ERROR in run %s:\n%s" % (e.get("i"), e["error"]), file=sys.stderr)
        code = 2
    if found:
        v, rep = found
        d = os.path.join(OUT, "replays")
        os.makedirs(d, exist_ok=True)
        replay_path = os.path.join(d, "%s-%s-seed%d-run%d.json" % (prop, tier, seed, v["i"]))
        json.dump(rep, open(replay_path, "w"), indent=1)
        print("run %d (VERIF_SEED=%d): %s" % (v["i"], seed, rep["message"]))
        for l in rep.get("trace", [])[:30]:
            print("   " + l)
        lines.append("VIOLATION property=%s replay=%s" % (prop, replay_path))
        code = 1
    if unreproduced:
        print("note: %d run(s) failed once but not in a fresh process: %s" % (len(unreproduced), unreproduced[:5]))
    for k in known_findings(prop):
        print("KNOWN-FINDING: " + k)
    write_evidence(prop, tier, seed, meta, done, again, mism, t0, runs, jobs, code, lines, unreproduced)
    ok = len(done)
    print("%s %s: %d/%d runs, %d violation(s), %.1f s, %d determinism re-runs (%d differ)" % (
        prop, tier, ok, runs, len(lines), time.time() - t0, len(again), len(mism)))
    for l in lines:
        print(l)
    if code == 0 and ok == 0:
        code = 2
    return code


def confirm(prop, v, seed, tier, hang):
    """reproduce in fresh processes, minimise; returns the replay record or None"""
    base = {"property": prop, "seed": seed, "tier": tier, "run": v["i"]}
    if v.get("hang"):
        r = ask(prop, {"cmd": "run", "i": v["i"], "seed": seed, "tier": tier}, hang * 2)
        if r is None:
            return dict(base, plan=None, message="the run does not finish (no result within %d s, twice)" % (hang * 2),
                        hang=hang, digest=None, trace=[])
        return None if not r.get("viol") else confirm(prop, r, seed, tier, hang)
    r = ask(prop, {"cmd": "plan", "plan": v["plan"]}, hang * 2)
    if r is None or not r.get("viol"):
        r = ask(prop, {"cmd": "run", "i": v["i"], "seed": seed, "tier": tier}, hang * 2)
        if r is None or not r.get("viol"):
            return None
        return dict(base, plan=None, message=r["viol"], digest=r["digest"], trace=r.get("trace", []))
    plan = r["plan"]
    s = ask(prop, {"cmd": "shrink", "plan": plan, "secs": 45}, 45 + 2 * hang)
    cands = ([s["plan"]] if s and "plan" in s else []) + [plan]
    for p in cands:
        a = ask(prop, {"cmd": "plan", "plan": p}, hang * 2)
        if a is None or not a.get("viol"):
            continue
        b = ask(prop, {"cmd": "plan", "plan": a["plan"]}, hang * 2)
        if b is not None and b.get("viol"):
            a2 = ask(prop, {"cmd": "plan", "plan": a["plan"]}, hang * 2, "777")
            return dict(base, plan=a["plan"], message=b["viol"], digest=b["digest"], trace=b.get("trace", []),
                        faults=b["faults"], exact=bool(a2 and a2.get("digest") == b["digest"]))
    return None


def write_evidence(prop, tier, seed, meta, done, again, mism, t0, runs, jobs, code, lines, unrep):
    wall = time.time() - t0
    faults, probes, sigs, nontriv = {}, {}, set(), set()
    vt = steps = 0
    for r in done.values():
        for k, n in r["faults"].items():
            faults[k] = faults.get(k, 0) + n
        for k, n in r["probes"].items():
            probes[k] = probes.get(k, 0) + n
        sigs.add(r["sig"])
        if r["nontrivial"]:
            nontriv.add(r["sig"])
        vt += r["vtime"]
        steps += r["steps"]
    samples = []
    for i in sorted(done):
        if done[i].get("plan") and len(samples) < 2:
            s = json.dumps(done[i]["plan"])
            samples.append(json.loads(s) if len(s) < 6000 else s[:6000])
    if not samples:
        samples = ["run %d" % i for i in sorted(done)[:2]]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {
              "evaluations": len(done), "distinct_nontrivial": len(nontriv), "rule": meta["rule"],
              "samples": samples, "planned_runs": runs,
              "runs_per_hour": round(len(done) / max(wall, 1e-6) * 3600),
              "simulated_seconds": round(vt, 3), "scheduler_steps": steps,
              "faults_injected": faults, "situations_reached": probes,
              "distinct_schedules": len(sigs), "schedule_measure": meta["measure"],
              "determinism": {"re_run_in_another_process_with_another_hash_seed": len(again), "different_digest": len(mism)},
              "unreproduced": unrep, "worker_processes": jobs,
              "components": {"real": meta["real"], "stub": meta["stub"]}},
          "assumptions": meta["assumptions"], "wall_s": round(wall, 2), "violations": len(lines)}
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    tmp = os.path.join(OUT, "evidence", ".%s.tmp" % prop)
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(OUT, "evidence", prop + ".json"))


if __name__ == "__main__":
    sys.exit(main())
