"""C07: the candidate enumeration, stopped and resumed at arbitrary points."""
import itertools
from .common import *

SIZES = {}


def ball(dim, k):
    """all integer vectors with |v|^2 <= k"""
    key = (dim, k)
    if key not in SIZES:
        out = []

        def rec(i, left, v):
            if i == dim:
                out.append(tuple(v))
                return
            m = int(left ** 0.5 + 1e-9)
            for x in range(-m, m + 1):
                rec(i + 1, left - x * x, v + [x])
        rec(0, k, [])
        SIZES[key] = frozenset(out)
    return SIZES[key]


MAXR = {1: 40, 2: 25, 3: 9, 4: 5, 5: 3, 6: 3, 9: 2}     # exact lengths
MAXK = {1: 60, 2: 30, 3: 14, 4: 9, 5: 6, 6: 4, 7: 3, 8: 3, 9: 3}


def gen(rng, tier, i):
    enums = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        dim = rng.choice([1, 2, 2, 3, 3, 4, 4, 4, 5, 6, 9])
        exact = rng.random() < 0.3
        k = rng.randrange(0, MAXR[dim] + 1) ** 2 if exact else rng.randrange(0, MAXK[dim] + 1)
        n = len(ball(dim, k))
        stops = []
        kk = k
        for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 8])):
            at = rng.choice([0, 1, rng.randrange(n), rng.randrange(n), rng.randrange(1 + n // 3)])
            if rng.random() < 0.6:
                if exact:
                    r = int(round(kk ** 0.5))
                    kk = rng.randrange(max(0, r - 2), r + 1) ** 2
                else:
                    kk = rng.randrange(max(0, kk - 3), kk + 1)
            stops.append([at, kk])
        enums.append({"dim": dim, "k": k, "stops": stops, "exact": exact, "zeros": rng.random() < 0.7})
    return {"enums": enums, "seed": rng.randrange(1 << 40)}


class Enum:
    def __init__(self, img, e):
        self.img, self.e = img, e
        self.k = e["k"]
        self.stops = [list(x) for x in e["stops"]]
        self.seen = {}
        self.order = []
        self.n = 0
        self.problem = None
        self.done = False
        self.fired = 0
        self.limit = 4 * len(ball(e["dim"], e["k"])) + 400
        self.start(np.zeros(e["dim"], int) if e["zeros"] else None)

    def start(self, x0):
        r = float(round(self.k ** 0.5)) if self.e["exact"] else (self.k + 0.5) ** 0.5
        d = self.e["dim"]
        self.g = self.img.vec_generator(r, d) if x0 is None else self.img.vec_generator(r, d, x0)
        self.n = 0

    def step(self):
        """one vector, or one stop-and-resume"""
        stop = self.stops and self.n >= self.stops[0][0]
        try:
            v = next(self.g)
        except StopIteration:
            self.done = True
            return
        if stop:
            # stopped here: v is the checkpoint, not visited
            _, self.k = self.stops.pop(0)
            self.g.close()
            self.fired += 1
            self.order.append(("resume", self.k))
            self.start(np.array(v))
            return
        v = tuple(int(x) for x in v)
        self.n += 1
        self.order.append(v)
        if len(v) != self.e["dim"]:
            self.problem = "vector %s has the wrong dimension" % (v,)
        elif v in self.seen:
            self.problem = "vector %s is visited twice" % (v,)
        elif len(self.seen) > self.limit:
            self.problem = "more than %d vectors visited" % self.limit
        self.seen[v] = True


def run(plan, out):
    img = fresh_image()
    if img.vec_generator is None:
        out.sig = "none"
        return
    rng = random.Random(plan["seed"])
    with env.world(0), img.active():
        es = [Enum(img, e) for e in plan["enums"]]
        live = list(es)
        while live:
            e = rng.choice(live)
            for _ in range(rng.randrange(1, 6)):
                if e.done or e.problem:
                    break
                e.step()
            if e.done or e.problem:
                live.remove(e)
        for e in es:
            if not e.problem:
                miss = ball(e.e["dim"], e.k) - set(e.seen)
                if miss:
                    e.problem = "%d vector(s) within the last bound never visited, e.g. %s" % (len(miss), min(miss))
            if e.problem:
                out.bad("dimension %d, |v|^2 <= %d, stops (vectors visited, new bound) %s: %s" % (
                    e.e["dim"], e.e["k"], e.e["stops"], e.problem))
            out.fault("stop and resume", e.fired)
            out.fault("bound shrunk on resume", sum(1 for a, b in zip([e.e["k"]] + [s[1] for s in e.e["stops"][:e.fired]], [s[1] for s in e.e["stops"][:e.fired]]) if b < a))
            out.steps += len(e.order)
            out.feed(e.order)
        out.sig = engine.sig_of([(e.e["dim"], e.e["k"], e.e["stops"], e.fired) for e in es])
        out.nontrivial = any(e.fired for e in es)


def shrink(plan, fails):
    cur = plan
    for i in reversed(range(len(cur["enums"]))):
        if len(cur["enums"]) > 1:
            c = copy.deepcopy(cur)
            del c["enums"][i]
            if fails(c) is not None:
                cur = c
    for i in range(len(cur["enums"])):
        def test(st, i=i):
            nonlocal cur
            c = copy.deepcopy(cur)
            c["enums"][i]["stops"] = st
            if fails(c) is not None:
                cur = c
                return True
            return False
        engine.ddmin(cur["enums"][i]["stops"], test)
    return cur
