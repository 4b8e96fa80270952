"""C01-C04: the hierarchical search driven by a simulated worker pool."""
import copy, itertools, pickle
from .. import engine, env, gen as gens, pool as P
from .common import *

DIMS = 3


def search_spec(rng, img, ratios, real, tier="quick"):
    while True:
        spread = rng.choice([0.06, 0.06, 0.3])
        a, m = gens.pair(rng, img, ratios=ratios, spread=spread)
        s = {"a": a, "m": m, "nsol": rng.choice([1, 1, 2, 3, 4, 6]), "dist": rng.choice(["Cauchy", "Cauchy", "Ericksen", "strain"]),
             "vol_th": rng.choice([0.1, 0.1, 0.2, 0.05])}
        if rng.random() < 0.12:       # integer parameters
            a2 = [a[0], [int(round(x)) if j < gens.NLEN[a[0] - 1] else x for j, x in enumerate(a[1])]]
            if min(a2[1]) > 0 and gens.ok_lattice(img, a2):
                s["a"] = a2
        s["miniter"], s["maxiter"] = rng.choice([(0, 1), (0, 1), (1, 1), (1, 2)]) if real else (0, 1)
        EA, EM = gens.base(img, s["a"]), gens.base(img, m)
        r = la.det(EM) / la.det(EA)
        try:
            vf = ref.admissible(r, s["vol_th"])
        except ref.Ambiguous:
            continue
        if max(vf) > 9 or (real and sum(vf) > 6):
            continue
        return s


def pool_args(rng, s):
    s["cpu"] = rng.choice([1, 2, 3, 4, 6])
    s["poolsize"] = rng.choice([None, 1, 1, 2, 2, 3, 4, 5, 8, 40])
    s["pool"] = P.gen_spec(rng)
    return s


class Problem:
    """what the search is about, computed independently"""

    def __init__(self, s):
        img = oracle_image()
        A = img.BravaisLattice(s["a"][0], list(s["a"][1]))
        M = img.BravaisLattice(s["m"][0], list(s["m"][1]))
        self.EA, self.EM = np.array(A.base(), float), np.array(M.base(), float)
        self.CA, self.CM = np.array(A.conventional_trans(), float), np.array(M.conventional_trans(), float)
        self.GA = ref.lattice_rep(self.EA, ref.laue(self.EA))
        self.GM = ref.lattice_rep(self.EM, ref.laue(self.EM))
        self.cls = ref.Classes(self.GA, self.GM)
        self.r = la.det(self.EM) / la.det(self.EA)
        self.vf = ref.admissible(self.r, s["vol_th"])
        self.dist = ref.DIST[s["dist"]]

    def orbits(self):
        out, n = {}, 0
        for v in self.vf:
            c, k = ref.orbit_reps(self.GA, v)
            out.update({H: n + x for H, x in c.items()})
            n += k
        return out, n

    def h_of(self, E1):
        H = la.inv(self.EA).dot(np.array(E1, float))
        return np.rint(H).astype(np.int64), ref.int_residual(H)


def unimod(rng, k):
    M = np.eye(3, dtype=np.int64)
    for _ in range(k):
        i, j = rng.sample(range(3), 2)
        T = np.eye(3, dtype=np.int64)
        T[i, j] = rng.choice([-1, 1])
        M = M.dot(T)
    return M


class Stub:
    """worker stand-in: seeded, sorted solutions for one sublattice"""

    def __init__(self, spec, prob, s):
        self.spec, self.prob, self.s = spec, prob, s

    def __call__(self, task, args):
        E1, E2, opt, ih = args
        h, _ = self.prob.h_of(E1)
        rng = random.Random("%d/%s" % (self.spec["seed"], ref.hnf(h)))
        n = self.s["nsol"]
        k = rng.choice([1, n, n, n + 1, max(1, n - 1)])
        if self.spec["mode"] == "short":
            k = 1
        sols = []
        for _ in range(k):
            l = unimod(rng, rng.randrange(0, 4))
            sols.append(l)
            if self.spec["equiv"] and rng.random() < 0.5:
                sols.append(l.dot(np.array(rng.choice(self.prob.GM), dtype=np.int64)))
        seen, res = set(), []
        for l in sols:
            c = self.prob.cls.canon(h.dot(l))
            if not self.spec["equiv"]:
                if c in seen:
                    continue
                seen.add(c)
            if self.spec["mode"] == "ties":
                d = (hash(c) % 5) / 4.0 + 0.25
            else:
                d = self.prob.dist(h.dot(l), self.prob.EA, self.prob.EM)
            res.append((d, l))
        res.sort(key=lambda x: x[0])
        return ih, {"lopt": [l for _, l in res], "dopt": [d for d, _ in res]}


class RealWorkers:
    """each simulated worker process has its own image and keeps it from task to task"""

    def __init__(self):
        self.img = {}

    def __call__(self, task, args):
        w = self.img.get(task.worker)
        if w is None:
            w = self.img[task.worker] = env.Image()
        with w.active():
            return w.lat_opt_unpack(args)


def kwargs(s):
    k = {x: s[x] for x in ("nsol", "dist", "vol_th", "miniter", "maxiter") if s[x] is not None}
    k["disp"] = 0
    return k


def call(img, s, **extra):
    k = kwargs(s)
    k.update(extra)
    return img.lat_cor_hnf(s["a"][0], list(s["a"][1]), s["m"][0], list(s["m"][1]), **k)


def par_call(img, s, work, out=None, pspec=None):
    p = P.SimPool(pspec or s["pool"], work)
    extra = {"lat_opt_par": p.submit}
    if s["poolsize"] is not None:
        extra["poolsize"] = s["poolsize"]
    try:
        r = ("ok", call(img, s, **extra))
    except env.SimHang as e:
        r = ("hang", str(e), e)
    except Exception as e:
        r = ("exc", "%s: %s" % (type(e).__name__, e), e)
    finally:
        env.CUR.on_sleep = None
    if out is not None:
        out.vtime += p.now
        out.steps += p.polls
        out.feed((p.log[:5000], engine.freeze(r[1]) if r[0] == "ok" else r[1]))
        out.fault("out-of-order completion", sum(1 for a, b in zip(p.completion_order(), p.completion_order()[1:]) if b < a))
        for f in p.fired:
            out.fault("worker/pool failure:" + f)
        if p.spec["late"]:
            out.fault("late argument pickling", p.n)
        if p.spec["lat"] == "stall":
            out.fault("stalled worker", sum(1 for t in p.tasks if t.latency >= 200))
        out.trace += ["%s %s" % e for e in p.log[:300]]
    return r, p


def key_of(prob, sol):
    return prob.cls.canon(np.array(sol["h"], float).dot(np.array(sol["l"], float).reshape(3, 3)))


def universe(prob, p):
    u = []
    for t in p.tasks:
        if t.result is None or t.exc is not None:
            continue
        h, _ = prob.h_of(t.args[0])
        for l, d in zip(t.result[1]["lopt"], t.result[1]["dopt"]):
            u.append((prob.cls.canon(h.dot(np.array(l))), float(d)))
    return u


def answer_problem(prob, sols, univ, s, check_d=True):
    ret = [(key_of(prob, x), float(x["d"])) for x in sols]
    q = ref.topn_problem(ret, univ, s["nsol"])
    if q:
        return q
    for x in sols:
        q = ref.record_problem(x, prob.EA, prob.EM, prob.CA, prob.CM, h=x["h"])
        if q:
            return q
        if check_d:
            T = np.array(x["h"], float).dot(np.array(x["l"], float))
            d = prob.dist(T, prob.EA, prob.EM)
            if abs(d - x["d"]) > 1e-7 * (1 + abs(d)):
                return "reported distance %.9g, the correspondence has %.9g" % (x["d"], d)
    return None


def stub_spec(rng):
    return {"seed": rng.randrange(1 << 30), "mode": rng.choice(["true", "true", "ties", "short"]), "equiv": rng.random() < 0.35}


def gen(rng, tier, i, real_share, ratios_real=(1, 2, 2, 3), ratios_stub=(1, 2, 3, 4, 4, 5, 6)):
    img = oracle_image()
    with env.world(0):
        real = rng.random() < real_share
        s = pool_args(rng, search_spec(rng, img, ratios_real if real else ratios_stub, real, tier))
    s["stub"] = None if real else stub_spec(rng)
    s["world"] = rng.randrange(1 << 30)
    return {"s": s}


def shrink(plan, fails):
    """simplify the pool and the request while it still fails"""
    cur = plan

    def attempt(**ch):
        nonlocal cur
        c = copy.deepcopy(cur)
        for k, v in ch.items():
            d = c["s"]
            ks = k.split("__")
            for x in ks[:-1]:
                d = d[x]
            if d.get(ks[-1]) == v:
                return False
            d[ks[-1]] = v
        r = fails(c)
        if r is not None:
            cur = c
            return True
        return False
    for lat in ("instant", "equal", "reverse"):
        if attempt(pool__lat=lat):
            break
    attempt(pool__late=False)
    attempt(pool__tick=1.0)
    for w in (1, 2):
        if attempt(pool__workers=w):
            break
    for n in (1, 2, 3):
        if attempt(nsol=n):
            break
    for n in (None, 1, 2, 3):
        if attempt(poolsize=n):
            break
    if cur["s"].get("stub"):
        attempt(stub__equiv=False)
        for m in ("short", "true"):
            if attempt(stub__mode=m):
                break
    f = cur["s"]["pool"].get("faults") or {}
    if f:
        def test(keys):
            return attempt(pool__faults={k: f[k] for k in keys})
        engine.ddmin(sorted(f), test)
    return cur
