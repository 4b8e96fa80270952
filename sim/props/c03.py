"""C03: worker and pool failures are raised, never hidden; later searches are unaffected."""
from .pools import *
from . import pools

KINDS = ["WorkerFailure", "ValueError", "MemoryError", "KeyError", "IndexError", "TypeError", "TimeoutError", "EOFError",
         "AttributeError", "OSError", "BrokenPool"]


def gen(rng, tier, i):
    plan = pools.gen(rng, tier, i, 0.1, ratios_stub=(2, 2, 3, 4, 4, 5))
    s = plan["s"]
    img = oracle_image()
    with env.world(0):
        n = Problem(s).orbits()[1]
    f = s["pool"]["faults"]
    x = rng.random()
    if x < 0.75:
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            f[str(rng.choice([0, n - 1, rng.randrange(n), rng.randrange(n)]))] = rng.choice(KINDS)
    if x > 0.7:
        s["pool"]["refuse"] = rng.choice([0, n - 1, rng.randrange(n)])
        s["pool"]["refuse_kind"] = rng.choice(["SubmitRefused", "ValueError", "BrokenPool", "OSError"])
    s["pool2"] = P.gen_spec(rng)
    return plan


def chain(e):
    seen = []
    while e is not None and e not in seen:
        seen.append(e)
        e = e.__cause__ or e.__context__
    return seen


def run(plan, out):
    s = plan["s"]
    prob = Problem(s)
    img = fresh_image()
    with env.world(s["world"], cpu=s["cpu"]), img.active():
        work = RealWorkers() if s["stub"] is None else Stub(s["stub"], prob, s)
        r, p = par_call(img, s, work, out)
        out.sig = engine.sig_of((s["a"], s["m"], s["poolsize"], s["cpu"], p.log, p.fired))
        out.nontrivial = bool(p.fired)
        if r[0] == "hang":
            out.bad("search does not finish after a worker failure: " + r[1])
        elif r[0] == "ok" and p.fired:
            out.bad("search returned %d solution(s) although %s" % (len(r[1]), ", ".join(p.fired)))
        elif r[0] == "exc" and not p.fired:
            out.bad("search raised %s although nothing failed" % r[1])
        elif r[0] == "exc":
            if not any(any(x is y for y in p.raised) for x in chain(r[2])):
                out.bad("the failure was replaced by %s" % r[1])
            out.probe("failure reported")
        elif r[0] == "ok":
            q = answer_problem(prob, r[1], universe(prob, p), s, check_d=False)
            if q:
                out.bad(q)
        # later search, same process, healthy pool
        r2, p2 = par_call(img, s, work, out, pspec=s["pool2"])
        if r2[0] != "ok":
            out.bad("after a failed search, a later search %s" % (("does not finish: " if r2[0] == "hang" else "raised ") + r2[1]))
        else:
            q = answer_problem(prob, r2[1], universe(prob, p2), s, check_d=False)
            if q is None and p2.n != prob.orbits()[1]:
                q = "%d of %d sublattice problems were handed out" % (p2.n, prob.orbits()[1])
            if q:
                out.bad("after a failed search, a later search is wrong: " + q)
