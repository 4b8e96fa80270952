"""C05, C12, C13, C14: whole searches as operations of simulated caller threads."""
import json, re, sys
from .. import engine, env, gen as gens, pool as P
from . import c06, pools
from .common import *

DIRECT_SKIP = ("quartic_opt.py", "dist.py", "hnf.py", "matrix_group.py", "lattice.py", "bravais_lattice.py",
               "vec_generator", "_vec_generator", "eqlatcor", "<genexpr>", "<lambda>")


def gen_opt(rng, img, small=True):
    a, m = gens.pair(rng, img, ratios=(1, 1, 2), spread=0.06)
    EA, EM = gens.base(img, a), gens.base(img, m)
    r = max(1, int(round(la.det(EM) / la.det(EA))))
    h = np.array(rng.choice(ref.sublattices(r)))
    s = {"op": "opt", "E1": EA.dot(h).tolist(), "E2": EM.tolist(), "nsol": rng.choice([1, 1, 2, 3, 5]),
         "dist": rng.choice(["Cauchy", "Cauchy", "Ericksen", "strain"])}
    s["miniter"], s["maxiter"] = rng.choice([(0, 1), (0, 1), (0, 2), (1, 1), (0, None), (1, None)])
    s["via"] = rng.choice(["lat_opt", "lat_opt", "unpack"])
    s["ihnf"] = rng.choice([None, rng.randrange(5)])
    return affordable(s)


def affordable(s):
    """the default depth grows with the number of solutions"""
    if s["op"] != "direct" and s["maxiter"] is None and (s["nsol"] or 0) > 4:
        s["nsol"] = 4
    return s


def gen_opt2(rng, img):
    """a 2D call: lat_opt does not support it and raises"""
    a, m = gens.pair(rng, img, ratios=(1,), dim=2)
    return {"op": "opt", "E1": gens.base(img, a, 2).tolist(), "E2": gens.base(img, m, 2).tolist(), "nsol": 1, "dist": "Cauchy",
            "miniter": 0, "maxiter": 1, "via": "lat_opt", "ihnf": None}


def gen_hnf(rng, img):
    ratios = rng.choice([(1, 2), (1, 2), (2, 2, 3)])
    while True:
        s = pools.search_spec(rng, img, ratios, True)
        if sum(ref.admissible(la.det(gens.base(img, s["m"])) / la.det(gens.base(img, s["a"])), s["vol_th"])) <= 2:
            break
    s.update(op="hnf", par=None)
    if s["miniter"] == 1 and s["nsol"] > 2:
        s["nsol"] = 2
    return s


def gen_par(rng, img):
    s = gen_hnf(rng, img)
    s["poolsize"] = rng.choice([None, 1, 2, 3])
    s["par"] = P.gen_spec(rng)
    return s


def gen_direct(rng, img):
    while True:
        a, m = gens.pair(rng, img, ratios=(1, 1, 1, 2), dim=2, spread=0.1, cond=2.2)
        s = {"op": "direct", "dim": 2, "a": a, "m": m, "nsol": rng.choice([1, 1, 2, 3]), "slice": rng.choice([17, 60, 100, 250, None])}
        return s


GEN = {"opt": gen_opt, "opt2": gen_opt2, "hnf": gen_hnf, "par": gen_par, "direct": gen_direct}


class Pool:
    """lat_opt_par over simulated workers that run the library's own code"""

    def __init__(self, s):
        self.p = P.SimPool(s["par"], pools.RealWorkers())


G2 = {"one": [np.eye(3).tolist()], "two": [np.eye(3).tolist(), np.diag([-1., -1., 1.]).tolist()],
      "four": [np.diag(d).tolist() for d in ([1., 1., 1.], [1., -1., -1.], [-1., 1., -1.], [-1., -1., 1.])]}


def reuse(shared, v):
    """an array with these values; callers that pass a "held" dictionary pass the same object again and again"""
    if shared is None or "held" not in shared:
        return np.array(v)
    k = json.dumps(v)
    if k not in shared["held"]:
        shared["held"][k] = np.array(v)
    return shared["held"][k]


def perform(img, s, shared=None):
    """run one search and return its result; with "rseed" it draws from a random stream of its own"""
    env._stream.__dict__.clear()
    if "rseed" in s:
        env.own_stream(s["rseed"])
    extra = {}
    if s.get("log"):
        extra["logfile"] = s["log"]
    if s.get("loglevel") is not None:
        extra["loglevel"] = s["loglevel"]
    if s["op"] == "opt":
        E1, E2 = reuse(shared, s["E1"]), reuse(shared, s["E2"])
        o = {k: s[k] for k in ("nsol", "dist", "miniter", "maxiter") if s[k] is not None}
        o["disp"] = s.get("disp", 0)
        o.update(extra)
        if s.get("G2"):
            o["SOLG2"] = reuse(shared, G2[s["G2"]])
        if s["via"] == "unpack":
            ih = s["ihnf"] or 0
            if s.get("share") and shared is not None:       # a thread pool hands every problem the same options
                o = shared.setdefault(0, o)
            got, r = img.lat_opt_unpack((E1, E2, o, ih))
            if got != ih:
                raise AssertionError("lat_opt_unpack answers for problem %r instead of %r" % (got, ih))
        else:
            if s["ihnf"] is not None:
                o["ihnf"] = s["ihnf"]
            r = img.lat_opt(E1, E2, **o)
        return {"lopt": [np.array(x) for x in r["lopt"]], "dopt": [float(x) for x in r["dopt"]]}
    if s["op"] == "hnf":
        extra = {"disp": s.get("disp", 0)}
        if s["par"]:
            work = pools.RealWorkers() if shared is None or "workers" not in shared else shared["workers"]
            p = P.SimPool(s["par"], work)
            extra["lat_opt_par"] = p.submit
            if s["poolsize"] is not None:
                extra["poolsize"] = s["poolsize"]
        try:
            return copy.deepcopy(pools.call(img, s, **extra))
        finally:
            env.CUR.on_sleep = None
    return copy.deepcopy(c06.call(img, s, disp=s.get("disp", 0), **extra))


def frozen(r):
    return (r[0], engine.freeze(r[1])) if r[0] == "ok" else r[:2]


def solo(s, clock="frozen", level=True):
    """the same search alone in a fresh process; returns (frozen result, log text)"""
    img = fresh_image()
    s = {k: v for k, v in s.items() if k not in ("stdout_fail",)}
    if s.get("par"):
        s = dict(s, par=dict(s["par"], faults={}, refuse=None))
    with env.world(s.get("rseed", 0), clock=clock), img.active():
        try:
            r = ("ok", perform(img, s))
        except env.SimHang as e:
            raise
        except Exception as e:
            r = ("exc", type(e).__name__)
        log = env.CUR.fs.files.get(s.get("log"))
    return frozen(r), log


def same_answer(s, got, want):
    """got, want: frozen results"""
    if got[0] != want[0]:
        return False
    if got[0] != "ok":
        return True
    return engine.close(got[1], want[1], 1e-12)


def describe(s):
    if s["op"] == "opt":
        return "lat_opt(nsol=%s, dist=%s, miniter=%s, maxiter=%s)" % (s["nsol"], s["dist"], s["miniter"], s["maxiter"])
    if s["op"] == "hnf":
        return "%s lat_cor_hnf(%s -> %s, nsol=%s)" % ("parallel" if s["par"] else "sequential", s["a"], s["m"], s["nsol"])
    return "lat_cor_direct(%s -> %s, nsol=%s)" % (s["a"], s["m"], s["nsol"])


def short(f):
    if f[0] != "ok":
        return "raises %s" % f[1]
    v = f[1]
    if v[0] == "dict":
        return "%d solution(s), distances %s" % (len(dict(v[1])["dopt"][1]), [round(x, 6) for x in dict(v[1])["dopt"][1]])
    return "%d solution(s), distances %s" % (len(v[1]), [round(dict(x[1])["d"], 6) for x in v[1]])
