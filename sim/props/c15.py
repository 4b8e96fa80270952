"""C15: callers overwrite everything they were given and everything they passed in."""
import copy, functools, json
from .. import engine, env, gen as gens
from . import objects
from .common import *


# ---------------------------------------------------------------- constructors that keep the caller's inputs
def build(img, kind, setup, form):
    """-> (object, [inputs the caller still holds])"""
    if kind == "lattice":
        if setup["via"] == "bravais":
            p = list(setup["spec"][1]) if form == 0 else np.array(setup["spec"][1], float)
            return img.BravaisLattice(setup["spec"][0], p, dim=setup["dim"]), [p]
        E = objects.LatticeKind.E(setup)
        E = E if setup["via"] == "lattice" else E.tolist()
        return img.Lattice(E), [E]
    if kind == "group":
        m = [np.array(x) for x in group_mats(setup)]
        m = m if form == 0 else np.array(m) if form == 1 else [x.tolist() for x in m]
        return img.MatrixGroup(m), [m]
    if kind == "martensite":
        U = np.array(setup["U"], float)
        if setup["laue"] == "default":
            if form == 0:
                return img.Martensite(U), [U]
            return img.Martensite().setU(U), [U]
        if form == 2 and not isinstance(setup["laue"], list):
            return img.Martensite(U).setLaue(setup["laue"]), [U]
        m = [np.array(x, float) for x in objects.MartensiteKind.truth(setup)["mats"]]
        m = m if form == 0 else np.array(m)
        return img.Martensite(U, img.MatrixGroup(m)), [U, m]
    if kind == "twinsystem":
        ul = [np.array(u) for u in objects.TwinSystemKind.ulist(setup)]
        if setup["via"] == "martensite":
            U = np.array(setup["U"], float)
            M = img.Martensite(U)
            return img.TwinSystem(M), [U, M.getvariants()]
        ul = ul if form == 0 else np.array(ul)
        if setup["via"] == "list":
            return img.TwinSystem(ul), [ul]
        m = [np.array(x) for x in objects.TwinSystemKind.group(img, setup["laue"]).matrices()]
        m = np.array(m)
        return img.TwinSystem(ul, img.MatrixGroup(m)), [ul, m]
    if kind == "twinpair":
        T = objects.TwinSystemKind.truth({k: v for k, v in setup.items() if k != "pair"})
        i, j = setup["pair"]
        a, b = np.array(T["U"][i]), np.array(T["U"][j])
        return img.TwinPair(a, b), [a, b]
    if kind == "search":
        return SearchObj(img, setup), []
    raise KeyError(kind)


# ---------------------------------------------------------------- two more kinds
def group_mats(setup):
    g = {"cubic": ref.CUBIC, "hex": ref.HEX, "square": ref.SQX}[setup["g"]]
    return g


class GroupKind:
    name = "group"

    @staticmethod
    def gen_setup(rng, img):
        return {"g": rng.choice(["cubic", "hex", "square"])}

    @staticmethod
    def gen_op(rng, setup):
        q = rng.choice(["matrices", "matrices", "order", "hassubgroup", "builtin", "builtin"])
        op = {"q": q}
        if q == "builtin":
            op["n"] = rng.choice(["CUBIC_LAUE_GROUP", "HEX_LAUE_GROUP", "SQUARE_GROUP", "SQUARE_EXT_GROUP", "HEX2D_GROUP",
                                  "HEX2D_EXT_GROUP"])
        return op

    @staticmethod
    def call(o, op, setup, img):
        if op["q"] == "hassubgroup":
            return o.hassubgroup(img.MatrixGroup(np.array([np.eye(len(group_mats(setup)[0]))])))
        if op["q"] == "builtin":
            return getattr(img.G, op["n"]).matrices()
        return getattr(o, op["q"])()

    WANT = {"CUBIC_LAUE_GROUP": ref.CUBIC, "HEX_LAUE_GROUP": ref.HEX, "SQUARE_GROUP": ref.SQ, "SQUARE_EXT_GROUP": ref.SQX,
            "HEX2D_GROUP": ref.HX, "HEX2D_EXT_GROUP": ref.HXX}

    @classmethod
    def check(cls, setup, op, r):
        w = group_mats(setup)
        if op["q"] == "matrices":
            return ref.group_problem(r, w, "matrices()")
        if op["q"] == "builtin":
            return ref.group_problem(r, cls.WANT[op["n"]], op["n"])
        if op["q"] == "order":
            return None if r == len(w) else "order() is %r" % r
        return None if r else "hassubgroup(trivial group) is False"

    @staticmethod
    def expected_exc(setup, op):
        return ()


class SearchObj:
    """no library object: every call is a search with fresh arguments"""

    def __init__(self, img, setup):
        pass


class SearchKind:
    name = "search"

    @staticmethod
    def gen_setup(rng, img):
        a, m = gens.pair(rng, img, ratios=(1, 1, 2))
        return {"a": a, "m": m, "nsol": rng.choice([1, 2, 3])}

    @staticmethod
    def gen_op(rng, setup):
        return {"q": rng.choice(["lat_opt", "lat_opt", "hnf"])}

    held = None

    @classmethod
    def call(cls, o, op, setup, img):
        if op["q"] == "lat_opt":
            E1 = img.BravaisLattice(setup["a"][0], list(setup["a"][1])).base()
            LM = img.BravaisLattice(setup["m"][0], list(setup["m"][1]))
            E2 = LM.base()
            G = LM.special_lattice_group().matrices()
            r = img.lat_opt(E1, E2, SOLG2=G, nsol=setup["nsol"], miniter=0, maxiter=1, disp=0)
            if isinstance(o, SearchObj):
                o.args = [E1, E2, G]
            return r
        pa, pm = list(setup["a"][1]), list(setup["m"][1])
        r = img.lat_cor_hnf(setup["a"][0], pa, setup["m"][0], pm, nsol=setup["nsol"], miniter=0, maxiter=1, disp=0)
        if isinstance(o, SearchObj):
            o.args = [pa, pm]
        return r

    @staticmethod
    def check(setup, op, r):
        w = _search_solo(json.dumps(setup, sort_keys=True), op["q"])
        return None if engine.close(engine.freeze(r), w) else "search differs from the same search in a fresh process"

    @staticmethod
    def expected_exc(setup, op):
        return ()


@functools.lru_cache(256)
def _search_solo(setup, q):
    img = env.Image()
    return engine.freeze(SearchKind.call(None, {"q": q}, json.loads(setup), img))


for K in (GroupKind, SearchKind):
    objects.KINDS[K.name] = K


# ---------------------------------------------------------------- overwriting
def scribble(v, rng, out, depth=0):
    """overwrite in place everything mutable in v"""
    n = 0
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            for x in v.ravel().tolist():
                n += scribble(x, rng, out, depth + 1)
        try:
            if v.dtype == object:
                v[...] = None
            elif v.dtype.kind == "b":
                v[...] = ~v
            else:
                v[...] = v * 0 + rng.choice([3, 0, -7])
            n += 1
        except ValueError:
            out.probe("read-only array")
    elif isinstance(v, list):
        for x in v:
            n += scribble(x, rng, out, depth + 1)
        if v and isinstance(v[0], (int, float)):
            v[:] = [5 for _ in v]
        elif rng.random() < 0.5:
            del v[:]
        else:
            v.append(None)
        n += 1
    elif isinstance(v, tuple):
        for x in v:
            n += scribble(x, rng, out, depth + 1)
    elif isinstance(v, dict):
        for x in v.values():
            n += scribble(x, rng, out, depth + 1)
        v.clear()
        n += 1
    return n


def raw_call(K, o, op, setup, img):
    """like K.call, but hands back the library's own return values, not copies the harness made"""
    if K.name == "lattice" and op["q"] in objects.LatticeKind.GROUPS:
        g = getattr(o, op["q"])()
        return {"order": g.order(), "mats": g.matrices()}
    if K.name == "twinsystem" and op["q"] == "getTwinpairs":
        return o.getTwinpairs()
    return K.call(o, op, setup, img)


def snapshot(K, op, r):
    if K.name == "twinsystem" and op["q"] == "getTwinpairs":
        return [(tp.Ui(), tp.Uj()) for tp in r]
    return copy.deepcopy(r)


def gen(rng, tier, i):
    img = oracle_image()
    with env.world(0):
        objs = objects.gen_objs(rng, img, ["lattice", "lattice", "group", "martensite", "martensite", "twinsystem", "twinpair", "search"],
                                rng.choice([1, 1, 2, 2, 3]))
        for o in objs:
            o["form"] = rng.randrange(3)
        nt = 1 if any(o["kind"] == "search" for o in objs) else rng.choice([1, 1, 2, 2, 3])
        threads, n = [], 0
        for t in range(nt):
            ops = []
            for _ in range(rng.randrange(2, 7)):
                x = rng.random()
                o = rng.randrange(len(objs))
                mine = [p["id"] for p in ops if "src" not in p and p["q"] != "scribble_in"]
                if x < 0.3 and mine:
                    ops.append({"q": "scribble", "src": rng.choice(mine[-2:]), "seed": rng.randrange(1 << 30), "obj": o, "id": n})
                elif x < 0.45:
                    ops.append({"q": "scribble_in", "seed": rng.randrange(1 << 30), "obj": o, "id": n})
                else:
                    ops.append(dict(objects.KINDS[objs[o]["kind"]].gen_op(rng, objs[o]["setup"]), obj=o, id=n))
                    if rng.random() < 0.5:
                        n += 1
                        ops.append({"q": "scribble", "src": n - 1, "seed": rng.randrange(1 << 30), "obj": o, "id": n})
                        n += 1
                        ops.append(dict(ops[-2] if rng.random() < 0.7 else
                                        objects.KINDS[objs[o]["kind"]].gen_op(rng, objs[o]["setup"]), obj=o, id=n))
                n += 1
            threads.append(ops)
    return {"objs": objs, "threads": threads, "sched": new_sched(rng), "world": rng.randrange(1 << 30), "after": rng.randrange(1 << 30)}


def run(plan, out):
    img = fresh_image()
    with env.world(plan["world"]), img.active(), sched.patched_locks():
        built = [build(img, o["kind"], o["setup"], o["form"]) for o in plan["objs"]]
        live, scribbled = {}, [0]

        def do(t, op):
            o = plan["objs"][op["obj"]]
            K = objects.KINDS[o["kind"]]
            obj, inputs = built[op["obj"]]
            if op["q"] in ("scribble", "scribble_in"):
                if op["q"] == "scribble":
                    v = live.pop((t, op["src"]), None)
                else:
                    v = list(inputs) + list(getattr(obj, "args", []) if o["kind"] == "search" else [])
                k = scribble(v, random.Random(op["seed"]), out) if v is not None else 0
                scribbled[0] += k
                return k
            r = raw_call(K, obj, op, o["setup"], img)
            live[(t, op["id"])] = r
            return snapshot(K, op, r)
        res = engine.run_threads(plan, out, do)
        out.fault("overwritten containers", scribbled[0])
        for t, ops in enumerate(plan["threads"]):
            for op in ops:
                r = res.get((t, op["id"]))
                if r is None or op["q"] in ("scribble", "scribble_in"):
                    continue
                o = plan["objs"][op["obj"]]
                p = objects.judge(objects.KINDS[o["kind"]], o["setup"], op, r)
                if p:
                    out.bad("after overwriting returned or passed-in values, operation %d on a %s: %s" % (op["id"], o["kind"], p))
                out.probe(o["kind"] + "." + objects.describe(op))
        # every object once more, fresh objects of the same kind, and the built-in groups
        rng = random.Random(plan["after"])
        for i, o in enumerate(plan["objs"]):
            K = objects.KINDS[o["kind"]]
            for obj, what in ((built[i][0], "the object"), (None, "a new object")):
                if o["kind"] == "search" and obj is None:
                    continue
                for _ in range(3):
                    op = K.gen_op(rng, o["setup"])
                    ob = obj if obj is not None else K.build(img, o["setup"]) if o["kind"] != "group" else \
                        build(img, "group", o["setup"], 1)[0]
                    try:
                        r = ("ok", copy.deepcopy(K.call(ob, op, o["setup"], img)))
                    except Exception as e:
                        r = ("exc", type(e).__name__, str(e))
                    p = objects.judge(K, o["setup"], op, r)
                    if p:
                        out.bad("after overwriting returned or passed-in values, %s (%s) answers wrongly: %s" % (what, o["kind"], p))
        for n, w in GroupKind.WANT.items():
            p = ref.group_problem(getattr(img.G, n).matrices(), w, n)
            if p:
                out.bad("after overwriting returned or passed-in values: " + p)
        out.sig = engine.sig_of((out.sig, [[(o["q"], o.get("pq"), o["obj"]) for o in t] for t in plan["threads"]], plan["objs"]))
        out.nontrivial = scribbled[0] > 0
    return out


def shrink(plan, fails):
    return engine.shrink_threads(plan, fails)
