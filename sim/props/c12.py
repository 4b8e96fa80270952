"""C12: searches aborted at arbitrary points, then more searches in the same process."""
from .searches import *
from . import searches


def omit(rng, s):
    """leave options to their defaults"""
    if rng.random() < 0.5 and s["op"] != "direct":
        for k in rng.sample(["nsol", "dist", "maxiter", "maxiter"], rng.choice([1, 1, 2])):
            s[k] = None
        if s["maxiter"] is None and s["nsol"] is not None:
            s["nsol"] = rng.choice([2, 4])
    affordable(s)


def gen(rng, tier, i):
    img = oracle_image()
    with env.world(0):
        x = rng.random()
        kinds = ["opt", "opt", "hnf", "par"] if x < 0.93 else ["direct"]
        ops, armed = [], []
        n = 0
        pool = []
        aborts = rng.choice([1, 1, 2, 3]) if kinds != ["direct"] else 1
        for j in range(aborts + rng.choice([1, 1, 2])):
            if pool and rng.random() < 0.75:
                s = copy.deepcopy(rng.choice(pool))
                if s["op"] == "opt":
                    s["nsol"] = rng.choice([1, 2, 3])
                omit(rng, s)
            else:
                s = GEN[rng.choice(kinds)](rng, img)
                if rng.random() < 0.06 and kinds != ["direct"]:
                    s = searches.gen_opt2(rng, img)
            pool.append(copy.deepcopy(s))
            s.update(id=n, rseed=rng.randrange(1 << 30))
            if j < aborts:
                how = rng.choice(["intr", "intr", "intr", "stdout"] if s["op"] != "hnf" or not s["par"] else ["intr", "worker", "worker", "stdout"])
                if how == "intr":
                    armed.append([0, n, rng.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError"])])
                elif how == "stdout":
                    s["disp"] = rng.choice([1, 2, 3])
                    s["stdout_fail"] = rng.choice([1, 2, rng.randrange(1, 12), rng.randrange(1, 60)])
                else:
                    f = rng.choice(["ValueError", "WorkerFailure", "MemoryError", "refuse"])
                    k = rng.choice([0, 0, 1, 2])
                    if f == "refuse":
                        s["par"]["refuse"] = k
                    else:
                        s["par"]["faults"] = {str(k): f}
            n += 1
            ops.append(s)
    p = {"threads": [ops], "sched": new_sched(rng), "intr": {"seed": rng.randrange(1 << 40), "armed": armed},
         "world": rng.randrange(1 << 30)}
    if kinds == ["direct"]:
        p["skip"] = list(DIRECT_SKIP)
    return p


def run(plan, out):
    img = fresh_image()
    broken = {}
    with env.world(plan["world"], draw_budget=c06.BUDGET), img.active(), sched.patched_locks():
        def do(t, s):
            env.CUR.draws = 0
            old = sys.stdout
            sys.stdout = so = env.SimOut(s.get("stdout_fail"))
            try:
                return perform(img, s)
            finally:
                sys.stdout = old
                if so.fired:
                    broken[s["id"]] = so.fired
        res = engine.run_threads(plan, out, do, budget=6000000)
    fired = {o for _, o in engine.fired_ops(out.plan)}
    for o in broken:
        out.fault("output stream error")
    n_abort = 0
    for s in plan["threads"][0]:
        r = res.get((0, s["id"]))
        if r is None:
            continue
        faulty = s["id"] in fired or s["id"] in broken or bool(s.get("par") and (s["par"]["faults"] or s["par"]["refuse"] is not None))
        if faulty and r[0] == "exc":
            n_abort += 1
            out.probe("aborted " + s["op"])
            if s.get("par") and s["par"]["faults"] or s.get("par") and s["par"]["refuse"] is not None:
                out.fault("worker or submission failure")
            continue
        want, _ = solo(s, clock="steady")
        got = frozen(r)
        if not same_answer(s, got, want):
            out.bad("%s %s: %s; in a fresh process: %s" % (
                describe(s), "disturbed by an injected failure" if faulty else "after %d aborted search(es)" % n_abort, short(got), short(want)))
        out.probe("later " + s["op"] if n_abort else s["op"])
    out.nontrivial = n_abort > 0


def shrink(plan, fails):
    return engine.shrink_threads(plan, fails)
