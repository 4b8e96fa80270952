"""C06: the direct search against the exact optimum, for seeded random streams."""
from .common import *
from .. import gen as gens

BUDGET = 300000


def gen(rng, tier, i):
    img = oracle_image()
    dim = 3 if tier == "thorough" and i % 16 == 5 else 2
    with env.world(0):
        a, m = gens.pair(rng, img, ratios=(1, 1, 1, 2, 2, 3, 4) if dim == 2 else (1, 1, 2), dim=dim,
                         spread=rng.choice([0.05, 0.2]), cond=4.0 if dim == 2 else 2.5)
    return {"dim": dim, "a": a, "m": m, "nsol": rng.choice([1, 1, 2, 3, 4, 5] if dim == 2 else [1, 1, 2]),
            "slice": rng.choice([1, 2, 5, 17, 99, 100, 101, 250, None] if dim == 2 else [100, 1000]),
            "seed": rng.randrange(1 << 31)}


class Problem:
    def __init__(self, plan):
        img = oracle_image()
        n = plan["dim"]
        A = img.BravaisLattice(plan["a"][0], list(plan["a"][1]), dim=n)
        M = img.BravaisLattice(plan["m"][0], list(plan["m"][1]), dim=n)
        self.n = n
        self.EA, self.EM = np.array(A.base(), float), np.array(M.base(), float)
        self.CA, self.CM = np.array(A.conventional_trans(), float), np.array(M.conventional_trans(), float)
        self.cls = ref.Classes(ref.lattice_rep(self.EA, ref.point(self.EA)), ref.lattice_rep(self.EM, ref.point(self.EM)))

    def problem(self, sols, nsol):
        if not isinstance(sols, list) or not sols:
            return "returns no solutions"
        ret = []
        for s in sols:
            L = np.array(s["l"], float).reshape(self.n, self.n)
            if ref.int_residual(L) > 1e-9 or abs(la.det(L)) < 0.5:
                return "a returned correspondence is not an invertible integer matrix"
            d = ref.cauchy(np.rint(L), self.EA, self.EM)
            if abs(d - s["d"]) > 1e-7 * (1 + d):
                return "reported distance %.9g, the correspondence has %.9g" % (s["d"], d)
            q = ref.record_problem(s, self.EA, self.EM, self.CA, self.CM)
            if q:
                return q
            ret.append((self.cls.canon(L), float(s["d"])))
        univ = [(self.cls.canon(L), d) for L, d in ref.all_within(self.EA, self.EM, max(d for _, d in ret))]
        if len(sols) < nsol:
            return "returns %d of %d requested solutions" % (len(sols), nsol)
        return ref.topn_problem(ret, univ, nsol)


def kwargs(plan):
    k = {"nsol": plan["nsol"], "dim": plan["dim"], "disp": 0}
    if plan["slice"] is not None:
        k["slice_sz"] = plan["slice"]
    return k


def call(img, plan, **extra):
    k = kwargs(plan)
    k.update(extra)
    return img.lat_cor_direct(plan["a"][0], list(plan["a"][1]), plan["m"][0], list(plan["m"][1]), **k)


def run(plan, out):
    img = fresh_image()
    with env.world(plan["seed"], draw_budget=BUDGET), img.active():
        try:
            sols = call(img, plan)
        except env.SimHang as e:
            out.bad("direct search does not finish: %s" % e)
            return
        except Exception as e:
            out.bad("direct search raised %s: %s" % (type(e).__name__, e))
            return
        out.fault("random draws decided by the simulator", env.CUR.draws)
        out.steps += env.CUR.draws
        out.vtime += env.CUR.clock.span
        env.CUR.draw_budget = None
        with env.world(0):
            prob = Problem(plan)
        q = prob.problem(sols, plan["nsol"])
        if q:
            out.bad("direct search (%dD, %s -> %s, %d solution(s), batch size %s, random seed %d): %s" % (
                plan["dim"], plan["a"], plan["m"], plan["nsol"], plan["slice"], plan["seed"], q))
        out.feed(engine.freeze(sols))
        out.sig = engine.sig_of((plan["dim"], plan["a"], plan["m"], plan["nsol"], plan["slice"], plan["seed"]))
        out.nontrivial = True
        out.probe("%dD" % plan["dim"])


def shrink(plan, fails):
    cur = plan
    for k, vs in (("nsol", range(1, plan["nsol"])), ("slice", (None, 1)), ("seed", (0, 1, 2))):
        for v in vs:
            if v == cur[k]:
                break
            c = dict(cur, **{k: v})
            if fails(c) is not None:
                cur = c
                break
    return cur
