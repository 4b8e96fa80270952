"""C26: calls of the library's functions in threads, after each other, interrupted, on shared arguments."""
import functools, json
from .common import *
from .. import gen as gens
from .objects import unimodular
from .c15 import scribble


class F:
    """one function: where it lives and how its arguments are drawn.  Arguments are lists of
    {"arr": matrix} (handed over as the one array object with these values), {"list": ...} or {"val": plain}"""

    def __init__(self, mod, name, gen, near=None):
        self.mod, self.name, self.gen, self.near = "structrans." + mod, name, gen, near


def A(x):
    return {"arr": np.array(x).tolist()}


def V(x):
    return {"val": x}


def mat(rng, n=3, k=6):
    while True:
        M = [[rng.randrange(-k, k + 1) for _ in range(n)] for _ in range(n)]
        if abs(la.det(np.array(M, float))) > 0.5:
            return M


def vecs(rng, n=None):
    n = n or rng.choice([1, 1, 2, 4])
    v = [[rng.randrange(-3, 4) for _ in range(3)] for _ in range(n)]
    return v[0] if n == 1 else v


def fbase(rng):
    n = rng.choice([2, 3, 3])
    while True:
        E = [[round(rng.uniform(-2, 2), 3) for _ in range(n)] for _ in range(n)]
        if abs(la.det(np.array(E))) > 0.2:
            M = unimodular(rng, n, rng.randrange(6))
            return np.array(E).dot(M).tolist()


def spd(rng):
    return gens.stretch(rng)


def rank1(rng):
    """C = (I + n a)(I + a n)"""
    a = np.array([rng.uniform(-.2, .2) for _ in range(3)])
    n = np.array([rng.uniform(-1, 1) for _ in range(3)])
    n /= la.norm(n)
    B = np.eye(3) + np.outer(a, n)
    return B.T.dot(B).tolist()


def distargs(rng, inv):
    E1, E2 = np.array(spd(rng)), np.array(spd(rng))
    return [A(unimodular(rng, 3, 4)), A(E1), A(la.inv(E2) if inv else E2)]


def hnfs_and_group(rng):
    H = ref.sublattices(rng.choice([2, 2, 3, 4]))
    G = rng.choice([ref.CUBIC, ref.CUBIC[:4], ref.CUBIC[:1], [Q for Q in ref.CUBIC if abs(abs(Q[2, 2]) - 1) < 1e-9]])
    return [{"parts": [A(np.array([np.array(h) for h in H], int)), A(np.rint(np.array(G)).astype(int))]}]


def quartic(rng):
    """a positive quartic form, mostly of full rank, with its minimum away from the axes"""
    d = 4
    v = np.array([[rng.uniform(-1, 1) for _ in range(d)] for _ in range(rng.choice([4, 5, 6]))])
    return sum(np.einsum("i,j,k,l->ijkl", x, x, x, x) for x in v)


FUNCS = {
    "quart": F("marttrans.lat_cor.quartic_opt", "quart_min", lambda r: [A(quartic(r))]),
    "diag": F("crystallography.hnf", "hnf_from_diag", lambda r: [{"list": [r.choice([1, 1, 2, 3]) for _ in range(r.choice([2, 3, 3, 4]))]}]),
    "subdet": F("crystallography.sublattice", "hnf_from_det", lambda r: [V(r.choice([1, 2, 3, 4, 6, 8])), V(r.choice([2, 3, 3]))]),
    "subhnfd": F("crystallography.sublattice", "hnfd", lambda r: [A(mat(r, r.choice([2, 3, 3, 4]))), V(r.choice([True, False]))]),
    "hnfs": F("crystallography", "HermiteNormalForms", lambda r: [V(r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12])), V(r.choice([2, 3, 3, 3]))]),
    "hnf3": F("crystallography", "HermiteNormalForms", lambda r: [V(r.choice([1, 2, 3, 4, 6, 8]))]),
    "hnfd": F("crystallography", "HNFDecomposition", lambda r: [A(mat(r, r.choice([2, 3, 3, 4])))]),
    "hnfdH": F("crystallography", "HNFDecomposition", lambda r: [A(mat(r)), V(True)]),
    "hnfd_list": F("crystallography", "HNFDecomposition", lambda r: [{"list": mat(r)}, V(r.choice([True, False]))]),
    "LLL": F("crystallography", "LLL", lambda r: [A(fbase(r))]),
    "LLLint": F("crystallography", "LLL", lambda r: [A(mat(r, 3, 4))]),
    "divisors": F("util", "divisors", lambda r: [V(r.randrange(1, 200))]),
    "Euler": F("util", "Euler", lambda r: [{"list": [round(r.uniform(-180, 180), 2) for _ in range(3)]}, V(r.choice(["ZXZ", "XYZ", "zyx", "YXY"])),
                                           V(r.choice(["deg", "rad"]))]),
    "rotation": F("util", "rotation", lambda r: [V(round(r.uniform(-180, 180), 2)), r.choice([lambda v: {"list": v}, A])(
        r.choice([[1, 0, 0], [0, 0, 1], [1, 1, 1], [-1, 2, 0.5], [3, 0.1, 0]])), V(r.choice(["deg", "rad"]))]),
    "solve_rank1": F("util", "solve_rank1", lambda r: [A(r.choice([rank1, rank1, spd])(r))]),
    "sort_eig": F("util.utils", "sort_eig", lambda r: [A(spd(r))]),
    "pos_def_sym": F("util.utils", "pos_def_sym", lambda r: [A(r.choice([spd(r), mat(r)]))]),
    "direc": F("marttrans", "direc_trans", lambda r: [A(mat(r, 3, 2)), r.choice([lambda v: {"list": v}, A])(vecs(r))]),
    "plane": F("marttrans", "plane_trans", lambda r: [A(mat(r, 3, 2)), r.choice([lambda v: {"list": v}, A])(vecs(r))]),
    "AM": F("marttrans", "AM_Solver", lambda r: [A(r.choice([rank1, rank1, spd])(r))]),
    "stereo": F("crystallography.stereogram", "stereo_proj", lambda r: [A([r.uniform(-2, 2) for _ in range(3)]), A(r.choice([[0, 0, 1], [1, 1, 1], [1, 2, 0]]))]),
    "pole": F("crystallography.stereogram", "pole_figure", lambda r: [r.choice([lambda v: {"list": v}, A])(vecs(r, 3)), A(r.choice([[0, 0, 1], [1, 1, 1], [1, 2, 0]]))]),
    "Eric": F("marttrans.lat_cor.dist", "Eric_dist", lambda r: distargs(r, False)),
    "strain": F("marttrans.lat_cor.dist", "strain_dist", lambda r: distargs(r, True)),
    "Cauchy": F("marttrans.lat_cor.dist", "Cauchy_dist", lambda r: distargs(r, True)),
    "Cauchys": F("marttrans.lat_cor.dist", "Cauchy_dist_vec", lambda r: [A(np.array([unimodular(r, 3, 3).ravel() for _ in range(r.choice([1, 3, 99, 100, 130]))]))]
                 + distargs(r, True)[1:]),
    "reduce": F("marttrans.lat_cor.main_hnf", "reduce_hnfs", hnfs_and_group),
    "skew": F("crystallography.spacegroup", "skew", lambda r: [V(r.choice([2, 3, 4, 6])), V(r.choice([1, 2, 3])), {"list": r.choice([[1, 0, 0], [0, 0, 1], [1, 1, 1]])}]),
    "vertex": F("crystallography", "vertex", lambda r: [A([0.5, 0, 1]), A(spd(r))]),
    "bonds": F("crystallography", "bonds", lambda r: [A([[r.randrange(-3, 4) for _ in range(3)] for _ in range(8)])]),
    "box": F("crystallography", "box", lambda r: [A([[r.randrange(-1, 2) for _ in range(3)] for _ in range(6)]), A(spd(r))]),
}


def usual(rng):
    """the slow ones in some runs only"""
    return [n for n in FUNCS if n != "quart" or rng.random() < 0.15]


def resolve(img, f):
    m = sys_import(f.mod)
    return getattr(m, f.name)


def sys_import(name):
    import importlib
    return importlib.import_module(name)


def vary(rng, op):
    """the same function on arguments that are easily mistaken for these"""
    op = copy.deepcopy(op)
    fresh = FUNCS[op["f"]].gen(rng)
    k = rng.randrange(3)
    if k == 0 and len(fresh) == len(op["args"]):                   # some arguments the same
        j = rng.randrange(len(fresh))
        op["args"][j] = fresh[j]
        if op["f"] in ("Cauchys", "Eric", "strain", "Cauchy") or _shape(fresh[j]) == _shape(op["args"][j]):
            return op
    elif k == 1:                                                   # a small change of one entry
        for a in op["args"]:
            if "arr" in a and isinstance(a["arr"][0], list) and isinstance(a["arr"][0][0], float):
                x = rng.choice([3e-5, 1e-3, 0.02])
                r = rng.random()
                if r < 0.3:
                    a["arr"] = (np.array(a["arr"]) * (1 + x)).tolist()
                elif r < 0.7 or len(a["arr"]) != 3:
                    a["arr"][0][0] += x
                else:
                    i, j = rng.choice([(0, 1), (1, 2), (0, 2)])
                    a["arr"][i][j] += x
                    a["arr"][j][i] += x
                return op
            if op["f"] in ("Euler", "rotation", "stereo"):
                for a in op["args"]:
                    v = a.get("val", a.get("list", a.get("arr")))
                    if isinstance(v, float):
                        a["val"] += rng.choice([3e-5, 1e-3, 0.4, 180., 360., -2 * v])
                        return op
                    if isinstance(v, list) and isinstance(v[0], float):
                        v[rng.randrange(3)] += rng.choice([3e-5, 1e-3, 0.4, 180.])
                        return op
        if "hnfd" in op["f"] or op["f"] == "LLLint":
            for a in op["args"]:
                M = a.get("arr") or a.get("list")
                if isinstance(M, list):
                    r = random.Random(rng.random())
                    P = unimodular(r, len(M), 2)
                    M2 = np.array(M).dot(P) if rng.random() < 0.5 else np.array(M).T
                    a["arr" if "arr" in a else "list"] = M2.tolist()
                    return op
    op["args"] = fresh
    return op


def _shape(a):
    v = a.get("arr", a.get("list", a.get("val", 0)))
    return np.array(v).shape if not isinstance(v, str) else ()


def gen(rng, tier, i):
    names = usual(rng)
    few = rng.sample(names, rng.choice([1, 1, 2, 3, 5]))
    nt = rng.choice([1, 2, 2, 3])
    threads, n, pool, armed = [], 0, [], []
    intr = rng.random() < 0.4
    for t in range(nt):
        ops = []
        for _ in range(rng.choice([2, 3, 4, 6])):
            x = rng.random()
            if pool and x < 0.3:
                op = copy.deepcopy(rng.choice(pool))               # the same call again
            elif pool and x < 0.65:
                op = vary(rng, rng.choice(pool))
            else:
                f = rng.choice(few)
                op = {"f": f, "args": FUNCS[f].gen(rng)}
            pool.append({"f": op["f"], "args": op["args"]})
            op = {"f": op["f"], "args": op["args"], "id": n, "rseed": rng.randrange(4), "scribble": rng.randrange(1 << 30) if rng.random() < 0.4 and op["f"] != "reduce" else None}
            if intr and rng.random() < 0.4:
                armed.append([t, n, rng.choice(["KeyboardInterrupt", "MemoryError"])])
            n += 1
            ops.append(op)
        threads.append(ops)
    p = {"threads": threads, "sched": new_sched(rng), "world": rng.randrange(1 << 30)}
    if armed:
        p["intr"] = {"seed": rng.randrange(1 << 40), "armed": armed}
    return p


def thaw(a, held):
    if "parts" in a:
        return [thaw(x, held) for x in a["parts"]]
    if "arr" in a:
        if held is None:
            return np.array(a["arr"])
        k = json.dumps(a["arr"])
        if k not in held:
            held[k] = np.array(a["arr"])
        return held[k]
    if "list" in a:
        return copy.deepcopy(a["list"])
    return a["val"]


def perform(img, op, held):
    args = [thaw(a, held) for a in op["args"]]
    lists = [(a, x) for a, x in zip(op["args"], args) if "list" in a]
    env.own_stream(op["rseed"])
    r = resolve(img, FUNCS[op["f"]])(*args)
    for a, x in lists:
        if x != a["list"]:
            raise Overwritten("the list %s was overwritten" % json.dumps(a["list"])[:100])
    for x in held.values() if held is not None else args:
        if isinstance(x, np.ndarray) and isinstance(r, np.ndarray) and np.shares_memory(x, r):
            raise Overwritten("the returned array is the caller's argument")
    return r


# reduce_hnfs selects among the matrices it is given: its results are those matrices, and are not overwritten here


class Overwritten(Exception):
    pass


@functools.lru_cache(4096)
def _solo(f, args, rseed):
    img = oracle_image()
    with env.world(0), env_image(img):
        try:
            return ("ok", engine.freeze(perform(img, {"f": f, "args": json.loads(args), "rseed": rseed}, None)))
        except Exception as e:
            return ("exc", type(e).__name__)


def env_image(img):
    return img.active()


def run(plan, out):
    img = fresh_image()
    held = {}
    with env.world(plan["world"]), img.active(), sched.patched_locks():
        for ops in plan["threads"]:                                # imports are not part of the workload
            for op in ops:
                resolve(img, FUNCS[op["f"]])
                for a in op["args"]:
                    thaw(a, held)
        snap, scr = {}, [0]

        def do(t, op):
            r = perform(img, op, held)
            f = engine.freeze(r)
            if op["scribble"] is not None:
                scr[0] += scribble(r, random.Random(op["scribble"]), out)
            return f
        res = engine.run_threads(plan, out, do)
        out.fault("overwritten results", scr[0])
        for k, v in held.items():
            if not np.array_equal(v, np.array(json.loads(k))):
                out.bad("an argument was overwritten: %s became %s" % (k[:150], json.dumps(v.tolist())[:150]))
    fired = {o for _, o in engine.fired_ops(out.plan)}
    for t, ops in enumerate(plan["threads"]):
        for op in ops:
            r = res.get((t, op["id"]))
            if r is None:
                continue
            if op["id"] in fired and r[0] == "exc":
                out.probe("interrupted " + op["f"])
                continue
            want = _solo(op["f"], json.dumps(op["args"]), op["rseed"])
            name = FUNCS[op["f"]].name
            if r[0] == "exc" and r[1] == "Overwritten":
                out.bad("%s: %s" % (name, r[2]))
            elif (r[0], r[1] if r[0] == "exc" else None) != (want[0], want[1] if want[0] == "exc" else None):
                out.bad("%s(%s) %s, alone in a fresh process it %s" % (name, json.dumps(op["args"])[:200], "raised %s: %s" % tuple(r[1:3]) if r[0] == "exc" else
                                                                       "returned", "raises " + want[1] if want[0] == "exc" else "returns"))
            elif r[0] == "ok" and not engine.close(r[1], want[1], 1e-9):
                out.bad("%s(%s) returned %s, alone in a fresh process %s" % (name, json.dumps(op["args"])[:200], str(r[1])[:200], str(want[1])[:200]))
            elif r[0] == "ok":
                q = truth(op, r[1])
                if q:
                    out.bad("%s(%s): %s" % (name, json.dumps(op["args"])[:200], q))
            out.probe(op["f"])
    out.sig = engine.sig_of((out.sig, [[(o["f"], o["args"]) for o in ops] for ops in plan["threads"]]))
    out.nontrivial = True


def truth(op, r):
    """answers that are known independently"""
    if op["f"] in ("hnfs", "hnf3"):
        n = op["args"][0]["val"]
        N = op["args"][1]["val"] if len(op["args"]) > 1 else 3
        if N == 3 and r[0] == "array" and len(set(zip(*[iter(r[3])] * 9))) != len(ref.sublattices(n)):
            return "lists %d of %d Hermite normal forms" % (len(set(zip(*[iter(r[3])] * 9))), len(ref.sublattices(n)))
    return None


def shrink(plan, fails):
    return engine.shrink_threads(plan, fails)
