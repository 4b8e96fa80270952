"""C04: one sublattice per symmetry class, reduced serially or through a parallel map."""
from .pools import *
from . import pools


def gen(rng, tier, i):
    plan = pools.gen(rng, tier, i, 0.0, ratios_stub=(1, 2, 3, 4, 4, 5, 6, 6, 8) if rng.random() < 0.8 else (0.45, 0.7, 1.45))
    s = plan["s"]
    s["cpu"] = rng.choice([1, 1, 2, 2, 3, 4, 7])
    s["pool"] = {"seed": 0, "workers": 4, "lat": "instant", "late": False, "tick": 1.0, "faults": {}, "refuse": None}
    s["nsol"] = 1
    s["stub"] = {"seed": 1, "mode": "short", "equiv": False}
    s["red"] = rng.choice([None, {"seed": rng.randrange(1 << 30), "ret": "list"}, {"seed": rng.randrange(1 << 30), "ret": "list"},
                           {"seed": rng.randrange(1 << 30), "ret": "gen"}, {"seed": rng.randrange(1 << 30), "ret": "unordered"}])
    return plan


class ReduceMap:
    """pool.map / imap / imap_unordered over worker images"""

    def __init__(self, spec, out):
        self.spec, self.out, self.rng = spec, out, random.Random(spec["seed"])
        self.groups = 0
        self.workers = [None, None, None]

    def one(self, blob):
        k = self.rng.randrange(3)
        w = self.workers[k]
        if w is None:
            w = self.workers[k] = env.Image()
        with w.active():
            return pickle.loads(pickle.dumps(w.reduce_hnfs(pickle.loads(blob)), -1))

    def __call__(self, args):
        args = [pickle.dumps(a, -1) for a in args]
        self.groups = len(args)
        order = list(range(len(args)))
        self.rng.shuffle(order)
        if self.spec["ret"] == "gen":
            return (self.one(a) for a in args)
        res = {}
        for k in order:
            res[k] = self.one(args[k])
        self.out.fault("group processed out of order", sum(1 for a, b in zip(order, order[1:]) if b < a))
        if self.spec["ret"] == "unordered":
            return iter([res[k] for k in order])
        return [res[k] for k in range(len(args))]


def run(plan, out):
    s = plan["s"]
    prob = Problem(s)
    img = fresh_image()
    with env.world(s["world"], cpu=s["cpu"]), img.active():
        p = P.SimPool(s["pool"], Stub(s["stub"], prob, s))
        extra = {"lat_opt_par": p.submit, "poolsize": 10 ** 6}
        red = None
        if s["red"]:
            red = extra["reduce_hnfs_par"] = ReduceMap(s["red"], out)
        try:
            call(img, s, **extra)
        except Exception as e:
            out.bad("search with%s raised %s: %s" % ("" if red else "out", "parallel reduction " + type(e).__name__, e))
            return
        finally:
            env.CUR.on_sleep = None
        orb, n = prob.orbits()
        got = []
        for t in p.tasks:
            h, res = prob.h_of(t.args[0])
            c = orb.get(ref.hnf(h)) if res < 1e-6 else None
            if c is None:
                out.bad("examines a lattice that is not an admissible sublattice")
                return
            got.append(c)
        how = "%d parallel groups" % red.groups if red and red.groups else "sequential reduction"
        if len(set(got)) != len(got):
            out.bad("%s (%d CPUs): examines %d sublattices for %d symmetry classes, some twice" % (how, s["cpu"], len(got), n))
        elif len(got) != n:
            out.bad("%s (%d CPUs): examines %d of %d symmetry classes of sublattices" % (how, s["cpu"], len(got), n))
        out.probe("parallel reduction" if red and red.groups else "sequential reduction")
        out.probe("sublattice classes", n)
        out.feed((sorted(got), how))
        out.vtime += p.now
        out.sig = engine.sig_of((s["a"], s["m"], s["vol_th"], s["cpu"], s["red"]))
        out.nontrivial = n >= 2
        if red and red.groups:
            out.fault("reduction farmed out (groups)", red.groups)
