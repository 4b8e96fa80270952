"""C01: parallel search = sequential search = best of everything the workers report."""
from .pools import *
from . import pools


def gen(rng, tier, i):
    return pools.gen(rng, tier, i, 0.4)


def run(plan, out):
    s = plan["s"]
    prob = Problem(s)
    img = fresh_image()
    with env.world(s["world"], cpu=s["cpu"]), img.active():
        work = RealWorkers() if s["stub"] is None else Stub(s["stub"], prob, s)
        r, p = par_call(img, s, work, out)
        out.sig = engine.sig_of((s["a"], s["m"], s["nsol"], s["poolsize"], s["cpu"], p.log))
        out.nontrivial = p.n >= 2
        out.probe("real workers" if s["stub"] is None else "stub workers")
        out.probe("tasks", p.n)
        if r[0] != "ok":
            out.bad("parallel search %s" % (("does not finish: " if r[0] == "hang" else "raised ") + r[1]))
        else:
            u = universe(prob, p)
            q = answer_problem(prob, r[1], u, s, check_d=s["stub"] is None or s["stub"]["mode"] != "ties")
            if q:
                out.bad("parallel search (pool size %s, %d sublattices): %s" % (s["poolsize"] or s["cpu"], p.n, q))
    if s["stub"] is None and r[0] == "ok":
        img = fresh_image()
        with env.world(s["world"], cpu=s["cpu"]), img.active():
            try:
                seq = call(img, s)
            except Exception as e:
                out.bad("sequential search raised %s: %s" % (type(e).__name__, e))
                return
            q = answer_problem(prob, seq, u, s)
            if q:
                out.bad("sequential search disagrees with the parallel one: " + q)
            out.feed(engine.freeze(seq))
