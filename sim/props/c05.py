"""C05: concurrent searches in one process."""
from .searches import *
from . import pools, searches
from .. import pool as P


def gen(rng, tier, i):
    img = oracle_image()
    with env.world(0):
        x = rng.random()
        if x > 0.86:
            return gen_pool(rng, img)
        skip = ()
        if x < 0.1:
            kinds = ["direct", "direct", "opt"]
            skip = DIRECT_SKIP
        elif x < 0.3:
            kinds = ["hnf", "opt", "opt"]
        else:
            kinds = ["opt"] * 8 + ["opt2"]
        nt = 2 if kinds[0] != "opt" else rng.choice([2, 2, 3])
        threads, n = [], 0
        pool = []
        for t in range(nt):
            ops = []
            for j in range(1 if kinds[0] != "opt" else rng.choice([1, 1, 2])):
                if pool and rng.random() < 0.3:            # same lattices, another request
                    s = copy.deepcopy(rng.choice(pool))
                    if s["op"] == "opt" and len(s["E1"]) == 3:
                        s.update({k: v for k, v in searches.gen_opt(rng, img).items() if k not in ("E1", "E2")})
                else:
                    k = kinds[0] if not n and kinds[0] != "opt" else rng.choice(kinds)
                    s = GEN[k](rng, img)
                pool.append(s)
                s = dict(s, id=n)
                ops.append(s)
                n += 1
            threads.append(ops)
        if kinds[0] == "opt" and rng.random() < 0.3:       # problems of one search on a thread pool
            o = {k: v for k, v in pool[0].items() if k in ("nsol", "dist", "miniter", "maxiter")}
            for ih, s in enumerate(s for ops in threads for s in ops if len(s["E1"]) == 3):
                s.update(o, via="unpack", share=True, ihnf=ih)
    p = {"threads": threads, "sched": new_sched(rng), "world": rng.randrange(1 << 30)}
    if skip:
        p["skip"] = list(skip)
    return p


def gen_pool(rng, img):
    """one or two searches whose problems are solved by a pool of threads of the same process"""
    ns, nw = rng.choice([1, 1, 1, 2]), rng.choice([1, 2, 2, 3])
    threads = []
    for t in range(ns):
        while True:
            s = searches.gen_hnf(rng, img)
            if s["nsol"] <= 3 and s["miniter"] == 0:
                break
        if threads and rng.random() < 0.5:
            s = dict(threads[0][0], nsol=s["nsol"], dist=s["dist"])
        threads.append([dict(s, id=t, poolsize=rng.choice([None, 1, 2, 3, 5]))])
    threads += [[{"op": "work", "id": ns + w}] for w in range(nw)]
    return {"threads": threads, "sched": new_sched(rng), "world": rng.randrange(1 << 30), "tp": True}


def run_pool(plan, out):
    img = fresh_image()
    used = {}
    with env.world(plan["world"]), img.active(), sched.patched_locks():
        tp = P.ThreadPool(sum(1 for ops in plan["threads"] for s in ops if s["op"] == "hnf"))

        def do(t, s):
            if s["op"] == "work":
                return tp.work(img.lat_opt_unpack)
            mine = used[t] = []

            def submit(a):
                mine.append(tp.submit(a))
                return mine[-1]
            try:
                return copy.deepcopy(pools.call(img, s, lat_opt_par=submit, **({"poolsize": s["poolsize"]} if s["poolsize"] else {})))
            finally:
                tp.leave()
        try:
            res = engine.run_threads(plan, out, do, budget=6000000)
        finally:
            env.CUR.on_sleep = None
    out.nontrivial = out.faults.get("preemption", 0) > 0
    out.fault("problems solved by a thread pool", len(tp.tasks))
    for t, ops in enumerate(plan["threads"]):
        for s in ops:
            r = res.get((t, s["id"]))
            if r is None or s["op"] == "work":
                continue
            if r[0] != "ok":
                out.bad("thread %d: %s on a thread pool raised %s" % (t, describe(dict(s, par=True)), r[1:]))
                continue
            prob = pools.Problem(s)
            univ = [(prob.cls.canon(prob.h_of(x.arg[0])[0].dot(np.array(l))), float(d)) for x in used[t] if x.exc is None
                    for l, d in zip(x.value[1]["lopt"], x.value[1]["dopt"])]
            q = pools.answer_problem(prob, r[1], univ, s)
            if not q:
                img = fresh_image()
                with env.world(plan["world"]), img.active():
                    q = pools.answer_problem(prob, pools.call(img, s), univ, s)
                if q:
                    q = "the sequential search alone disagrees: " + q
            if q:
                out.bad("thread %d: %s on a thread pool: %s" % (t, describe(dict(s, par=True)), q))
            out.probe("thread pool")


def run(plan, out):
    if plan.get("tp"):
        return run_pool(plan, out)
    img = fresh_image()
    with env.world(plan["world"], draw_budget=c06.BUDGET), img.active(), sched.patched_locks():
        shared = {}
        res = engine.run_threads(plan, out, lambda t, s: perform(img, s, shared), budget=6000000)
    out.nontrivial = out.faults.get("preemption", 0) > 0
    for t, ops in enumerate(plan["threads"]):
        for s in ops:
            r = res.get((t, s["id"]))
            if r is None:
                continue
            if s["op"] == "direct":
                if r[0] != "ok":
                    out.bad("thread %d: %s next to other searches raised %s" % (t, describe(s), r[1:]))
                    continue
                with env.world(0):
                    q = c06.Problem(s).problem(r[1], s["nsol"])
                if q:
                    out.bad("thread %d: %s next to other searches: %s" % (t, describe(s), q))
                out.probe("direct")
                continue
            want, _ = solo(s, clock="steady")
            got = frozen(r)
            if not same_answer(s, got, want):
                out.bad("thread %d: %s next to other searches: %s; alone: %s" % (t, describe(s), short(got), short(want)))
            out.probe(s["op"])


def shrink(plan, fails):
    if plan.get("tp"):          # every thread is needed; fewer preemptions may do
        def test(l):
            c = copy.deepcopy(plan)
            c["sched"]["rec"]["switch"] = l
            return fails(c) is not None
        engine.ddmin(plan["sched"]["rec"]["switch"], test)
        return plan
    return engine.shrink_threads(plan, fails)
