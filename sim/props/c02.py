"""C02: every sublattice problem dispatched once, within the pool limit, bounded polling."""
from .pools import *
from . import pools


def gen(rng, tier, i):
    return pools.gen(rng, tier, i, 0.08)


def run(plan, out):
    s = plan["s"]
    prob = Problem(s)
    img = fresh_image()
    with env.world(s["world"], cpu=s["cpu"]), img.active():
        work = RealWorkers() if s["stub"] is None else Stub(s["stub"], prob, s)
        r, p = par_call(img, s, work, out)
        out.sig = engine.sig_of((s["a"], s["m"], s["poolsize"], s["cpu"], p.log))
        out.nontrivial = p.n >= 2
        out.probe("tasks", p.n)
        size = s["poolsize"] or s["cpu"]
        if r[0] != "ok":
            out.bad("parallel search %s" % (("does not finish: " if r[0] == "hang" else "raised ") + r[1]))
            return
        judge(out, s, prob, p, size)


def judge(out, s, prob, p, size):
    orb, n = prob.orbits()
    got = []
    for t in p.tasks:
        if t.blob is None or t.result is None:
            out.bad("a dispatched problem never ran")
            return
        h, res = prob.h_of(t.args[0])
        c = orb.get(ref.hnf(h)) if res < 1e-6 else None
        if c is None:
            out.bad("dispatched a lattice that is not an admissible sublattice")
            return
        got.append(c)
    if len(set(got)) != len(got):
        out.bad("a sublattice problem was handed out %d times" % max(got.count(c) for c in got))
    if len(set(got)) != n:
        out.bad("%d of %d sublattice problems were handed out" % (len(set(got)), n))
    if p.max_outstanding > size:
        out.bad("%d uncollected problems with a pool size of %d" % (p.max_outstanding, size))
    left = [t for t in p.tasks if not t.collected]
    if left:
        out.bad("%d results were never collected" % len(left))
    lim = 4 * (len(p.tasks) * size) + 16
    if p.polls_after > lim:
        out.bad("%d polls with nothing left to wait for (%d problems, pool size %d)" % (p.polls_after, len(p.tasks), size))
    if p.n > size:
        out.probe("more problems than pool size")
    if p.n and p.max_outstanding == size:
        out.probe("pool limit reached")
