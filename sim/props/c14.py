"""C14: log files of successive and concurrent searches."""
import errno, logging
from .searches import *
from . import searches


def gen(rng, tier, i):
    img = oracle_image()
    with env.world(0):
        x = rng.random()
        if x < 0.08:
            kinds, nt, total = ["direct", "direct", "opt"], 2, 2           # concurrent, traced: keep it short
        elif x < 0.2:
            kinds, nt, total = ["direct", "direct", "opt", "opt"], 1, rng.choice([2, 2, 3])
        elif x < 0.6:
            kinds, nt, total = ["opt"], 1, rng.randrange(2, 6)
        else:
            kinds, nt, total = ["opt"], rng.choice([2, 2, 3]), rng.randrange(2, 5)
        files = ["/simfs/%s.log" % c for c in "abc"]
        threads = [[] for _ in range(nt)]
        armed = []
        pool = []
        for n in range(total):
            t = n % nt if n < nt else rng.randrange(nt)
            if pool and rng.random() < 0.3:
                s = copy.deepcopy(rng.choice(pool))
            else:
                s = GEN[kinds[0] if n == 0 else rng.choice(kinds)](rng, img)
            pool.append(copy.deepcopy(s))
            # a file is used by one thread only; within a thread files are reused, sometimes none is given
            own = files[t::nt] if nt > 1 else files[:2]
            s["log"] = None if rng.random() < 0.2 and total > 1 else rng.choice(own)
            s["loglevel"] = rng.choice([None, None, logging.INFO, logging.DEBUG])
            s.update(id=n, rseed=rng.randrange(1 << 30))
            if s["op"] == "opt" and s["via"] == "unpack":
                s["ihnf"] = s["ihnf"] or 0
            if rng.random() < 0.2 and kinds == ["opt"]:
                armed.append([t, n, "KeyboardInterrupt"])
            threads[t].append(s)
        # searches on the device while it fails, before the judged ones
        fs = []
        if nt == 1 and rng.random() < 0.3:
            m = rng.choice([3, 10, 40])
            fs = [[k, rng.choice([errno.EIO, errno.ENOSPC])] for k in sorted({rng.randrange(1, m) for _ in range(rng.choice([1, 3, 8]))})]
    p = {"threads": threads, "sched": new_sched(rng), "world": rng.randrange(1 << 30), "fs": fs,
         "closefail": bool(fs) and rng.random() < 0.4}
    if armed:
        p["intr"] = {"seed": rng.randrange(1 << 40), "armed": armed}
    if kinds[0] == "direct":
        p["skip"] = list(DIRECT_SKIP)
    return p


def run(plan, out):
    img = fresh_image()
    dirty, before = set(), {}
    with env.world(plan["world"], clock="frozen", fs_faults=plan["fs"], draw_budget=c06.BUDGET), img.active(), sched.patched_locks():
        fs = env.CUR.fs
        last_fault = max([k for k, _ in plan["fs"]] or [0])

        def do(t, s):
            env.CUR.draws = 0
            n0 = len(fs.fired)
            fs.close_fault = errno.EIO if plan["closefail"] and fs.ops < last_fault else 0
            before[s["id"]] = fs.files.get(s["log"]) if s["log"] else None
            try:
                return perform(img, s)
            finally:
                if len(fs.fired) != n0:
                    dirty.add(s["id"])
        res = engine.run_threads(plan, out, do, budget=6000000)
        for op, e in fs.fired:
            out.fault("log device %s error %s" % (op, errno.errorcode[e]))
        out.vtime += env.CUR.clock.span
        import gc
        gc.collect()
        files = dict(fs.files)
    fired = {o for _, o in engine.fired_ops(out.plan)}
    owner = {}
    for t, ops in enumerate(plan["threads"]):
        for s in ops:
            if s["log"]:
                owner.setdefault(s["log"], []).append(s)
    for f in files:
        if f not in owner:
            out.bad("a file nobody asked for was written: %s" % f)
    for f, ss in owner.items():
        exp, clean, unsure = "", True, False
        for s in ss:
            r = res.get((next(t for t, o in enumerate(plan["threads"]) if s in o), s["id"]))
            if r is None:
                clean = False
                break
            hit = s["id"] in fired or s["id"] in dirty
            want, log = solo(s)
            if r[0] != "ok" and not hit:
                out.bad("%s with log file %s raised %s" % (describe(s), f, r[1:]))
                clean = False
                break
            if s["op"] == "direct":
                exp, unsure = log, False            # starts the file afresh
                if log is not None and not hit:
                    p = report_problem(s, r[1], log)
                    if p:
                        out.bad("log of %s alone: %s" % (describe(s), p))
            else:
                exp = (exp or "") + (log or "")
            if log is None or not log:
                if (s.get("loglevel") or logging.INFO) <= logging.INFO:
                    out.bad("%s writes nothing to its log file" % describe(s))
                exp = exp or ""
            else:
                q = doubled(log)
                if q:
                    out.bad("log of %s repeats a line: %r" % (describe(s), q))
            if hit:
                unsure, exp = True, ""              # what an aborted search or failing device left is not promised
        if not clean or exp is None:
            continue
        got = files.get(f, "")
        ok = got.endswith(exp) if unsure else got == exp
        out.probe("log checked%s" % (" (after an aborted or failing one)" if unsure else ""))
        if not ok:
            out.bad("log file %s of %s: %s" % (f, " then ".join(describe(s) for s in ss), difference(got, exp)))
    out.nontrivial = len(plan["threads"]) > 1 or len(plan["threads"][0]) > 1


def doubled(log):
    ls = log.split("\n")
    for a, b in zip(ls, ls[1:]):
        if a.strip(" =-") and a == b:
            return a
    return None


def report_problem(s, sols, log):
    for x in set("%g" % y["d"] for y in sols):
        n = sum(1 for y in sols if "%g" % y["d"] == x)
        k = len(re.findall(r"(?<![\w.])%s(?![\w.])" % re.escape(x), log))
        if k < n:
            return "the distance %s of a solution is missing" % x
    return None


def difference(got, exp):
    g, e = got.split("\n"), exp.split("\n")
    if len(got) == 0:
        return "empty, %d lines expected" % len(e)
    for i, (a, b) in enumerate(zip(g, e)):
        if a != b:
            return "%d lines, %d expected; line %d is %r, expected %r" % (len(g), len(e), i + 1, a[:80], b[:80])
    return "%d lines, %d expected" % (len(g), len(e))


def shrink(plan, fails):
    return engine.shrink_threads(plan, fails)
