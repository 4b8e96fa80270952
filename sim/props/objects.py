"""Shared-object workloads: lattices, martensites, twin systems and pairs.

Each kind offers: gen_setup(rng, img), gen_op(rng, setup), build(img, setup), call(obj, op, setup, img),
expect(setup, op) -> checker(frozen result) returning None or text.  Expected answers come from the
independent references in sim.ref; where no independent reference is stated the answer of a fresh
object in a fresh image (same arguments) is used.
"""
import functools, itertools, json, random
import numpy as np
from .. import engine, gen, ref
from .common import la, oracle_image


def unimodular(rng, n, k=3):
    M = np.eye(n, dtype=int)
    for _ in range(k):
        i, j = rng.sample(range(n), 2)
        T = np.eye(n, dtype=int)
        T[i, j] = rng.choice([-1, 1])
        M = M.dot(T)
    return M


# ================================================================== lattice
NEAR = [1.0004, 0.9992, 1.001, 1.002, 1.01]


def near_symmetric(rng, spec, dim):
    """a lattice of a special shape, distorted a little, or the other way round"""
    i, p = spec[0], spec[1]
    f = rng.choice(NEAR)
    a = p[0]
    if dim == 2:
        return {1: [2, [a, a * f]], 2: rng.choice([[1, [a]], [2, [a, a * f]]]), 3: [1, [a]], 4: [3, [a, a * 3 ** 0.5 * f]],
                5: rng.choice([[1, [a]], [5, [a, a, 90 * f]]])}[i]
    t = {1: [[6, [a, a * f]], [8, [a, a * f, a]]], 2: [[10, [a, a, a * f]], [10, [a, a * f, a]]], 3: [[7, [a, a * f]], [11, [a, a, a * f]]],
         4: [[9, [a, a * 3 ** 0.5 * f, p[-1]]]], 6: [[1, [a]], [8, [a, a * f, p[-1]]]], 7: [[3, [a]], [11, [a, a * f, p[-1]]]],
         8: [[1, [a]], [6, [a, p[-1]]]], 9: [[4, [a, p[-1]]]], 10: [[2, [a]]], 11: [[3, [a]], [7, [a, p[-1]]]]}.get(i)
    if t is None:
        return None
    return [t[0][0], [round(x, 6) for x in t[0][1]]] if rng.random() < 0.5 else (lambda q: [q[0], [round(x, 6) for x in q[1]]])(rng.choice(t))


class LatticeKind:
    name = "lattice"

    @staticmethod
    def gen_setup(rng, img):
        dim = rng.choice([2, 3, 3, 3])
        ids = None
        if dim == 3 and rng.random() < 0.35:
            ids = [4, 4, 9, 1, 2, 3]       # hexagonal and hexagonal-like lattices take the two-stage path
        if dim == 2 and rng.random() < 0.4:
            ids = [4, 3]
        while True:
            spec = gen.lattice(rng, img, dim, ids=ids, special=0.35)
            s = {"dim": dim, "spec": spec, "via": rng.choice(["bravais", "bravais", "lattice", "list"])}
            E = gen.base(img, spec, dim)
            if s["via"] != "bravais":
                s["mul"] = unimodular(rng, dim, rng.randrange(3)).tolist()
                try:
                    ref.point(E.dot(np.array(s["mul"])))
                except ref.Ambiguous:
                    continue
            return s

    @staticmethod
    def gen_related(rng, img, setup):
        """a lattice that is easily mistaken for the given one"""
        for _ in range(20):
            s = json.loads(json.dumps(setup))
            k = rng.randrange(7)
            if k >= 5:                                   # almost the same, with another symmetry
                q = near_symmetric(rng, s["spec"], s["dim"])
                if q is None:
                    continue
                s["spec"] = q
            elif k == 0:                                 # another type with as many parameters
                n = (gen.NLEN if s["dim"] == 3 else gen.NLEN2)
                same = [i + 1 for i in range(len(n)) if n[i] == n[s["spec"][0] - 1]]
                s["spec"][0] = rng.choice(same)
                if len(s["spec"][1]) != len(gen.bravais(rng, s["dim"], ids=[s["spec"][0]])[1]):
                    continue
            elif k == 1:                                 # other parameters
                s["spec"] = gen.lattice(rng, img, s["dim"], ids=[s["spec"][0]], special=0.5)
            elif k == 2:                                 # a slightly distorted one
                j = rng.randrange(len(s["spec"][1]))
                s["spec"][1][j] = round(s["spec"][1][j] * rng.choice(NEAR), 6)
            elif k == 3:                                 # another base
                s["via"] = rng.choice(["lattice", "list"])
                s["mul"] = unimodular(rng, s["dim"], 1 + rng.randrange(2)).tolist()
            else:
                s["via"] = "bravais"
                s.pop("mul", None)
            try:
                if gen.ok_lattice(img, s["spec"], s["dim"]):
                    ref.point(LatticeKind.E(s))
                    return s
            except (ref.Ambiguous, ValueError):
                continue
        return LatticeKind.gen_setup(rng, img)

    @staticmethod
    def E(setup):
        return np.array(_lat_E(json.dumps(setup, sort_keys=True)))

    @staticmethod
    def build(img, setup):
        if setup["via"] == "bravais":
            return img.BravaisLattice(setup["spec"][0], list(setup["spec"][1]), dim=setup["dim"])
        E = LatticeKind.E(setup)
        return img.Lattice(E if setup["via"] == "lattice" else E.tolist())

    GROUPS = ["Laue_group", "point_group", "lattice_group", "special_lattice_group",
              "getLauegroup", "getpointgroup", "getspeciallatticegroup"]
    OTHER = ["inpointgroup", "inlatticegroup", "base", "dimension", "eq", "str"]
    BRAV = ["conventional_trans", "conventional_base", "to_primitive_Miller", "to_conventional_Miller", "lat_param",
            "Bravais_id"]

    @classmethod
    def gen_op(cls, rng, setup):
        x = rng.random()
        if x < 0.62:
            return {"q": rng.choice(cls.GROUPS[:4] if rng.random() < 0.8 else cls.GROUPS)}
        n = setup["dim"]
        if x < 0.88 or setup["via"] != "bravais":
            q = rng.choice(cls.OTHER)
            op = {"q": q}
            E = cls.E(setup)
            if q == "inpointgroup":
                pool = (ref.CUBIC + ref.HEX + [-Q for Q in ref.CUBIC + ref.HEX]) if n == 3 else ref.SQX + ref.HXX
                k = rng.randrange(6)
                Q = rng.choice(ref.point(E)) if k < 2 else rng.choice(pool)
                if k == 5:
                    Q = Q * 1.1
                if k == 4:
                    Q = np.eye(5 - n)
                op["arg"] = Q.tolist()
            elif q == "inlatticegroup":
                k = rng.randrange(4)
                M = rng.choice(ref.lattice_rep(E, ref.point(E))) if k < 2 else unimodular(rng, n, 2)
                M = M.astype(float)
                if k == 3:
                    M[0, 0] += 0.25
                op["arg"] = M.tolist()
            elif q == "eq":
                op["arg"] = (unimodular(rng, n, 2) * rng.choice([1.0, 1.0, 1.5])).tolist()
            return op
        q = rng.choice(cls.BRAV)
        op = {"q": q}
        if "Miller" in q:
            k = rng.choice([1, 2, 3])
            op["arg"] = [[rng.randrange(-3, 4) for _ in range(n)] for _ in range(k)]
            if k == 1:
                op["arg"] = op["arg"][0]
        return op

    @staticmethod
    def call(o, op, setup, img):
        q = op["q"]
        if q in LatticeKind.GROUPS:
            g = getattr(o, q)()
            return {"order": g.order(), "mats": g.matrices()}
        if q in ("inpointgroup", "inlatticegroup", "to_primitive_Miller", "to_conventional_Miller"):
            return getattr(o, q)(np.array(op["arg"]))
        if q == "eq":
            return o == img.Lattice(LatticeKind.E(setup).dot(np.array(op["arg"])))
        if q == "str":
            return str(o)
        return getattr(o, q)()

    @classmethod
    def check(cls, setup, op, r):
        """r: value returned"""
        E = cls.E(setup)
        q = op["q"]
        n = setup["dim"]
        if q in cls.GROUPS:
            G = ref.point(E) if q in ("point_group", "getpointgroup", "lattice_group") else ref.laue(E)
            if "lattice" in q:
                G = ref.lattice_rep(E, G)
            if r["order"] != len(r["mats"]):
                return "%s: order() is %d, matrices() has %d" % (q, r["order"], len(r["mats"]))
            return ref.group_problem(r["mats"], G, q + "()")
        if q == "inpointgroup":
            Q = np.array(op["arg"], float)
            want = Q.shape == (n, n) and np.max(np.abs(Q.dot(Q.T) - np.eye(len(Q)))) < 1e-9 and ref.preserves(E, Q)
            return None if bool(r) == bool(want) else "inpointgroup() is %s, should be %s" % (r, bool(want))
        if q == "inlatticegroup":
            M = np.array(op["arg"], float)
            Q = E.dot(M).dot(la.inv(E))
            e = np.max(np.abs(Q.dot(Q.T) - np.eye(n)))
            if 1e-9 < e < 1e-3:
                return None
            want = ref.int_residual(M) < 1e-9 and e <= 1e-9
            return None if bool(r) == bool(want) else "inlatticegroup() is %s, should be %s" % (r, bool(want))
        if q == "eq":
            want = abs(abs(la.det(np.array(op["arg"], float))) - 1) < 1e-9
            return None if bool(r) == want else "== is %s, should be %s" % (r, want)
        if q == "dimension":
            return None if r == n else "dimension() is %r" % (r,)
        if q == "base":
            return None if r.shape == E.shape and np.max(np.abs(np.array(r, float) - E)) < 1e-9 else "base() is not the base"
        if q == "Bravais_id":
            return None if r == setup["spec"][0] else "Bravais_id() is %r" % (r,)
        if q == "lat_param":
            return None if np.allclose(np.array(r, float), setup["spec"][1], atol=1e-9) and len(r) == len(setup["spec"][1]) \
                else "lat_param() is %r" % (r,)
        # the rest: a fresh object's answer
        return solo_check(cls, setup, op, r)


@functools.lru_cache(2048)
def _lat_E(s):
    setup = json.loads(s)
    E = gen.base(oracle_image(), setup["spec"], setup["dim"])
    return E.dot(np.array(setup["mul"])) if setup["via"] != "bravais" else E


@functools.lru_cache(4096)
def _solo(kind, setup, op):
    from .. import env
    img = oracle_image()
    K = KINDS[kind]
    setup, op = json.loads(setup), json.loads(op)
    try:
        return ("ok", engine.freeze(K.call(K.build(img, setup), op, setup, img)))
    except Exception as e:
        return ("exc", type(e).__name__)


def strip(op):
    return json.dumps({k: v for k, v in op.items() if k not in ("id", "obj")}, sort_keys=True)


def solo(K, setup, op):
    return _solo(K.name, json.dumps(setup, sort_keys=True), strip(op))


def solo_check(K, setup, op, r):
    w = solo(K, setup, op)
    if w[0] == "exc":
        return "%s returned an answer, a fresh object raises %s" % (op["q"], w[1])
    if not engine.close(engine.freeze(r), w[1]):
        return "%s differs from a fresh object's answer" % op["q"]
    return None


# ================================================================== martensite
def nudged(rng, U):
    """a stretch that differs by little, and perhaps in symmetry"""
    U = [list(r) for r in U]
    if rng.random() < 0.4:                                # make two axes (nearly) equal
        i, j = rng.sample(range(3), 2)
        U[i][i] = U[j][j]
    e = rng.choice([4e-4, -7e-4, 1e-3, 4e-3, 0])
    if rng.random() < 0.7:
        i = rng.randrange(3)
        U[i][i] = round(U[i][i] + e, 6)
    else:
        i, j = rng.sample(range(3), 2)
        U[i][j] = U[j][i] = round(U[i][j] + e, 6)
    return U


class MartensiteKind:
    name = "martensite"
    LAUE = ["default", "default", "default", 1, 3, 4, 6, 8, 12, 14, ["perm", 1], ["perm", 2], ["sub", 1], ["sub", 2], ["conj", 1]]

    @staticmethod
    def gen_setup(rng, img):
        while True:
            s = {"U": gen.stretch(rng), "laue": rng.choice(MartensiteKind.LAUE), "via": rng.choice(["ctor", "set", "order"])}
            if rng.random() < 0.25:
                s["laue"] = rng.choice([4, 4, 1])
            try:
                if s["laue"] == 4 and rng.random() < 0.8:      # make it reversible for a hexagonal parent more often
                    a = round(rng.uniform(0.9, 1.1), 4)
                    b, c = round(rng.uniform(0.9, 1.1), 4), round(rng.uniform(0.9, 1.1), 4)
                    s["U"] = [[a, 0, 0], [0, b, 0], [0, 0, c]]
                MartensiteKind.truth(s)
                return s
            except ref.Ambiguous:
                continue

    @staticmethod
    def gen_related(rng, img, setup):
        """a transformation that is easily mistaken for the given one"""
        for _ in range(20):
            s = dict(setup)
            k = rng.randrange(6)
            if k >= 4:
                s["U"] = nudged(rng, s["U"])
            elif k == 0:
                s["laue"] = rng.choice(MartensiteKind.LAUE)
            elif k == 1:
                Q = ref.CUBIC[rng.randrange(24)]
                s["U"] = (np.round(Q.dot(np.array(s["U"])).dot(Q.T), 6) + 0.0).tolist()
            elif k == 2:
                s["U"] = gen.stretch(rng)
            s["via"] = rng.choice(["ctor", "set", "order"])
            try:
                MartensiteKind.truth(s)
                return s
            except ref.Ambiguous:
                continue
        return MartensiteKind.gen_setup(rng, img)

    @staticmethod
    def group(img, l):
        """a symmetry group by name; one object per name and process image, so that objects share it"""
        cache = img.__dict__.setdefault("shared_groups", {})
        key = json.dumps(l)
        if key not in cache:
            if isinstance(l, list):
                cache[key] = img.MatrixGroup([np.array(m) for m in named_group(l)])
            else:
                cache[key] = img.Martensite(np.eye(3)).setLaue(l).getLaue()
        return cache[key]

    @staticmethod
    def build(img, setup):
        U = np.array(setup["U"])
        l = setup["laue"]
        if isinstance(l, list):
            l = MartensiteKind.group(img, l)
        if setup["via"] == "ctor":
            if l == "default":
                return img.Martensite(U)
            return img.Martensite(U, l if isinstance(setup["laue"], list) else MartensiteKind.group(img, l))
        if setup["via"] == "set":
            m = img.Martensite().setU(U)
            return m if l == "default" else m.setLaue(l)
        m = img.Martensite()
        m = m if l == "default" else m.setLaue(l)
        return m.setU(U)

    @staticmethod
    def truth(setup):
        return _mart_truth(json.dumps({"U": setup["U"], "laue": setup["laue"]}, sort_keys=True))

    OPS = ["getvariants", "getvariants", "getvariant", "getLaueidx", "getLaueidx", "isreversible", "getU", "calcvariants",
           "getLaue", "derive"]

    @classmethod
    def gen_op(cls, rng, setup):
        op = {"q": rng.choice(cls.OPS)}
        if op["q"] == "getvariant":
            op["n"] = rng.randrange(1, 1 + max(1, len(cls.truth(setup)["variants"])))
        if op["q"] == "derive":
            # a new object with another stretch or symmetry, and a question about it
            while True:
                d = {"U": setup["U"], "laue": setup["laue"]}
                k = rng.randrange(4)
                if k < 2:
                    d["laue"] = rng.choice([l for l in cls.LAUE if l != "default"])
                    if k == 1 and rng.random() < 0.5:
                        d["laue"] = ["perm", rng.randrange(1, 4)]
                else:
                    Q = ref.CUBIC[rng.randrange(24)]
                    d["U"] = gen.stretch(rng) if k == 2 else (np.round(Q.dot(np.array(d["U"])).dot(Q.T), 6) + 0.0).tolist()
                try:
                    cls.truth(d)
                    break
                except ref.Ambiguous:
                    continue
            op["d"] = d
            op["then"] = {"q": rng.choice(["getvariants", "getLaueidx", "getLaueidx", "isreversible", "getU", "getLaue"])}
        return op

    @staticmethod
    def call(o, op, setup, img):
        q = op["q"]
        if q == "derive":
            d = op["d"]
            if d["laue"] != setup["laue"]:
                m = o.setLaue(MartensiteKind.group(img, d["laue"]) if isinstance(d["laue"], list) else d["laue"])
            else:
                m = o.setU(np.array(d["U"]))
            return MartensiteKind.call(m, op["then"], d, img)
        if q == "getvariant":
            return o.getvariant(op["n"])
        if q == "getLaue":
            g = o.getLaue()
            return {"order": g.order(), "mats": g.matrices()}
        return getattr(o, q)()

    @classmethod
    def check(cls, setup, op, r):
        q = op["q"]
        if q == "derive":
            p = cls.check(op["d"], op["then"], r)
            return None if p is None else "an object derived from it: " + p
        T = cls.truth(setup)
        if q == "getU":
            return None if np.max(np.abs(np.array(r) - np.array(setup["U"]))) < 1e-12 else "getU() is not U"
        if q == "isreversible":
            return None if bool(r) == T["rev"] else "isreversible() is %s, should be %s" % (r, T["rev"])
        if q == "getLaue":
            return ref.group_problem(r["mats"], T["mats"], "getLaue()")
        if not T["rev"]:
            return "%s() returned an answer for an irreversible transformation" % q
        if q == "calcvariants":
            return None
        vs = T["variants"]
        if q == "getvariants":
            r = np.array(r)
            if len(r) != len(vs):
                return "getvariants() lists %d variants, there are %d" % (len(r), len(vs))
            if np.max(np.abs(r[0] - vs[0])) > 1e-8:
                return "getvariants() does not list the original first"
            got = {ref.key(v) for v in r}
            if got != {ref.key(v) for v in vs}:
                return "getvariants() is not the orbit of U"
            return None
        if q == "getvariant":
            w = solo(cls, setup, op)
            if not any(np.max(np.abs(np.array(r) - v)) < 1e-8 for v in vs):
                return "getvariant(%d) is not a variant" % op["n"]
            return None if w[0] == "ok" and engine.close(engine.freeze(r), w[1]) else "getvariant(%d) is another variant" % op["n"]
        if q == "getLaueidx":
            # which variant does each operation produce
            if r is None:
                return "getLaueidx() returned None"
            idx = [sorted(int(i) for i in row) for row in r]
            if len(idx) != len(vs):
                return "getLaueidx() has %d rows, there are %d variants" % (len(idx), len(vs))
            lib = T["order"]       # variants in the order a fresh object lists them
            for row, V in zip(idx, lib):
                want = [i for i, Q in enumerate(T["mats"]) if np.max(np.abs(Q.dot(vs[0]).dot(Q.T) - V)) < 1e-8]
                if row != want:
                    return "getLaueidx() row %s should be %s" % (row, want)
            return None
        return None

    @classmethod
    def expected_exc(cls, setup, op):
        if op["q"] == "derive":
            return cls.expected_exc(dict(op["d"], via="ctor"), op["then"])
        T = cls.truth(setup)
        if op["q"] in ("getvariants", "getvariant", "getLaueidx", "calcvariants") and not T["rev"]:
            return ("AttributeError",)
        return solo_exc(cls, setup, op)


def named_group(l):
    """matrices of a group given as [name, seed]"""
    kind, seed = l
    C = ref.CUBIC
    if kind == "perm":                                   # the cubic group in another order
        r = random.Random(seed)
        tail = C[1:]
        r.shuffle(tail)
        return [C[0]] + tail
    if kind == "sub":                                    # a subgroup: about one axis (order 8), or the rotations of a tetrahedron
        if seed == 1:
            return [Q for Q in C if abs(abs(Q[2, 2]) - 1) < 1e-9]
        return [Q for Q in C if abs(abs(np.trace(Q)) - 1) > 1e-9 or (abs(np.trace(Q) + 1) < 1e-9 and abs(Q[0, 0] * Q[1, 1] * Q[2, 2]) > 0.5)]
    c, s = np.cos(0.3 * seed), np.sin(0.3 * seed)        # the cubic group of a turned parent
    R = np.array([[c, -s, 0], [s, c, 0], [0, 0, 1.0]])
    return [R.dot(Q).dot(R.T) for Q in C]


@functools.lru_cache(2048)
def _mart_truth(s):
    setup = json.loads(s)
    img = oracle_image()
    U = np.array(setup["U"], float)
    if setup["laue"] == "default":
        mats = [np.array(m, float) for m in img.G.CUBIC_LAUE_GROUP.matrices()]
    elif isinstance(setup["laue"], list):
        mats = [np.array(m, float) for m in named_group(setup["laue"])]
    else:
        mats = [np.array(m, float) for m in img.Martensite(U).setLaue(setup["laue"]).getLaue().matrices()]
    lg = ref.laue(U)
    have = {ref.key(m) for m in mats}
    rev = all(ref.key(Q) in have for Q in lg) and len(mats) % len(lg) == 0
    vs, _ = ref.variants(U, mats)
    T = {"mats": mats, "rev": bool(rev), "variants": vs, "order": vs}
    if rev:
        # the order of the list itself is the library's choice (original first): take it from a fresh object
        m = img.Martensite(U, img.MatrixGroup(np.array(mats)))
        T["order"] = [np.array(v) for v in m.getvariants()]
    return T


def solo_exc(K, setup, op):
    w = solo(K, setup, op)
    return (w[1],) if w[0] == "exc" else ()


# ================================================================== twin system
class TwinSystemKind:
    name = "twinsystem"

    @staticmethod
    def gen_setup(rng, img):
        while True:
            s = {"U": gen.stretch(rng), "via": rng.choice(["martensite", "list", "list2"]), "sub": rng.choice([3, 4, 6, 12])}
            try:
                T = MartensiteKind.truth({"U": s["U"], "laue": "default"})
                if not T["rev"] or len(T["variants"]) < 2:
                    continue
                s["laue"] = rng.choice(["cubic", "cubic", "tet", "hex"]) if s["via"] == "list2" else "cubic"
                TwinSystemKind.truth(s)
                return s
            except ref.Ambiguous:
                continue

    @staticmethod
    def gen_related(rng, img, setup):
        """a twin system that is easily mistaken for the given one"""
        for _ in range(20):
            s = dict(setup)
            k = rng.randrange(5)
            if k == 4:
                s["U"] = nudged(rng, s["U"])
            elif k == 0:
                s["laue"] = rng.choice(TwinSystemKind.GROUPS)
            elif k == 1:
                s["U"] = gen.stretch(rng)
            elif k == 2:
                s["perm"] = rng.randrange(1, 100)
            else:
                Q = ref.CUBIC[rng.randrange(24)]
                s["U"] = (np.round(Q.dot(np.array(s["U"])).dot(Q.T), 6) + 0.0).tolist()
            if s["via"] == "martensite" or (s["laue"] != "cubic" and s["via"] == "list"):
                s["via"] = "list2"
                s["sub"] = len(TwinSystemKind.ulist(setup))
            try:
                T = MartensiteKind.truth({"U": s["U"], "laue": "default"})
                if not T["rev"] or len(T["variants"]) < 2:
                    continue
                TwinSystemKind.truth(s)
                return s
            except ref.Ambiguous:
                continue
        return TwinSystemKind.gen_setup(rng, img)

    GROUPS = ["cubic", "tet", "hex", "none", "perm"]

    @staticmethod
    def ulist(setup):
        T = MartensiteKind.truth({"U": setup["U"], "laue": "default"})
        vs = [np.array(v) for v in T["order"]]
        if setup["via"] == "martensite":
            return vs
        if setup.get("perm"):
            random.Random(setup["perm"]).shuffle(vs)
        return vs[:setup["sub"]]

    @staticmethod
    def group(img, name):
        if name == "cubic":
            return img.G.CUBIC_LAUE_GROUP
        if name == "hex":
            return img.G.HEX_LAUE_GROUP
        cache = img.__dict__.setdefault("shared_groups", {})
        if name not in cache:
            if name == "none":
                cache[name] = img.MatrixGroup(np.array([np.eye(3)]))
            elif name == "perm":
                cache[name] = img.MatrixGroup([np.array(m) for m in named_group(["perm", 7])])
            else:
                cache[name] = img.BravaisLattice(6, [1.0, 1.4]).Laue_group()
        return cache[name]

    @classmethod
    def build(cls, img, setup):
        if setup["via"] == "martensite":
            return img.TwinSystem(img.Martensite(np.array(setup["U"])))
        if setup["via"] == "list":
            return img.TwinSystem(np.array(cls.ulist(setup)))
        return img.TwinSystem(np.array(cls.ulist(setup)), cls.group(img, setup["laue"]))

    OPS = ["TwinTable", "TwinTable", "getTwinpairs", "getTwinpairs", "getConventional", "getConventional", "getCompound",
           "getTypeI", "getTypeII", "Ulist", "pair", "pair"]
    PAIR = ["isconventional", "isconventional_g", "iscompound", "istypeI", "ax", "twinparam", "XI", "XII", "volumefrac",
            "istwinnable", "Ui", "Uj", "habitplanes", "iscompatible"]

    @classmethod
    def gen_op(cls, rng, setup):
        op = {"q": rng.choice(cls.OPS)}
        if op["q"] == "pair":
            n = len(cls.truth(setup)["table"])
            if n == 0:
                return {"q": "TwinTable"}
            op["k"] = rng.randrange(n)
            op["pq"] = rng.choice(cls.PAIR)
            if op["pq"] == "isconventional_g":
                op["g"] = rng.choice(TwinSystemKind.GROUPS)
        return op

    @classmethod
    def call(cls, o, op, setup, img):
        q = op["q"]
        if q == "pair":
            tp = o.getTwinpairs()[op["k"]]
            if op["pq"] == "isconventional_g":
                return tp.isconventional(cls.group(img, op["g"]))
            return getattr(tp, op["pq"])()
        if q == "getTwinpairs":
            return [(tp.Ui(), tp.Uj()) for tp in o.getTwinpairs()]
        return getattr(o, q)()

    @staticmethod
    def truth(setup):
        return _twin_truth(json.dumps(setup, sort_keys=True))

    @classmethod
    def check(cls, setup, op, r):
        T = cls.truth(setup)
        q = op["q"]
        if q == "TwinTable":
            got = [tuple(int(x) for x in row) for row in r]
            return None if got == T["table"] else "TwinTable() lists %d pairs, %d are twinnable" % (len(got), len(T["table"]))
        if q == "getTwinpairs":
            if len(r) != len(T["table"]):
                return "getTwinpairs() lists %d pairs, %d are twinnable" % (len(r), len(T["table"]))
            for (a, b), (i, j) in zip(r, T["table"]):
                if np.max(np.abs(a - T["U"][i])) > 1e-12 or np.max(np.abs(b - T["U"][j])) > 1e-12:
                    return "getTwinpairs() does not match TwinTable()"
            return None
        if q == "getConventional":
            got = [int(i) for i in r]
            return None if got == T["conv"] else "getConventional() is %s, should be %s" % (got, T["conv"])
        if q == "Ulist":
            return None if np.array(r).shape == np.array(T["U"]).shape and np.max(np.abs(np.array(r) - np.array(T["U"]))) < 1e-12 \
                else "Ulist() is not the variant list"
        if q == "pair":
            i, j = T["table"][op["k"]]
            if op["pq"] in ("isconventional", "isconventional_g"):
                g = op.get("g", "two-fold")
                want = ref.conventional(T["U"][i], T["U"][j], T["groups"][g])
                return None if bool(r) == want else "isconventional(%s) is %s, should be %s" % (op.get("g", ""), r, want)
            if op["pq"] == "istwinnable":
                return None if r else "istwinnable() is False for a listed pair"
            p = pair_check(op["pq"], T["U"][i], T["U"][j], T["groups"]["two-fold"], r)
            if p:
                return p
            if op["pq"] in ("Ui", "Uj"):
                V = T["U"][i if op["pq"] == "Ui" else j]
                return None if np.max(np.abs(np.array(r) - V)) < 1e-12 else "%s() is another tensor" % op["pq"]
        if q in ("getTypeI", "getTypeII", "getCompound"):
            got = [int(i) for i in r]
            comp = T.get("comp")
            if comp is not None:
                want = comp if q == "getCompound" else [i for i in range(len(T["table"])) if i not in comp]
                return None if got == want else "%s() is %s, should be %s" % (q, got, want)
        return solo_check(cls, setup, op, r)

    @classmethod
    def expected_exc(cls, setup, op):
        return solo_exc(cls, setup, op)


@functools.lru_cache(2048)
def _twin_truth(s):
    setup = json.loads(s)
    img = oracle_image()
    U = TwinSystemKind.ulist(setup)
    groups = {g: [np.array(m, float) for m in TwinSystemKind.group(img, g).matrices()] for g in TwinSystemKind.GROUPS}
    table = [(i, j) for i in range(len(U)) for j in range(i + 1, len(U)) if ref.twinnable(U[i], U[j])]
    conv = [k for k, (i, j) in enumerate(table) if ref.conventional(U[i], U[j], groups[setup["laue"]])]
    groups["two-fold"] = [Q for Q in ref.CUBIC if abs(np.trace(Q) + 1) < 1e-9]      # default of isconventional()
    groups = {k: np.array(v) for k, v in groups.items()}
    for g in groups.values():
        for i, j in table:
            ref.conventional(U[i], U[j], g)
    ncomp = [ref.compound(U[i], U[j], groups["two-fold"]) for i, j in table]
    comp = None if None in ncomp else [k for k, c in enumerate(ncomp) if c]
    return {"U": U, "table": table, "conv": conv, "groups": groups, "comp": comp, "ncomp": ncomp}


def pair_check(pq, Ui, Uj, two, r):
    """answers about one pair that follow from first principles"""
    if pq in ("iscompound", "istypeI", "istypeII"):
        c = ref.compound(Ui, Uj, two)
        if c is not None and bool(r) != (c if pq == "iscompound" else not c):
            return "%s() is %s for a %s twin" % (pq, r, "compound" if c else "type I/II")
    if pq == "twinparam" and r is not None and any(np.max(np.abs(Q.dot(Ui).dot(Q.T) - Uj)) < 1e-10 for Q in two):
        for Q, a, n in r:
            if np.max(np.abs(Q.dot(Q.T) - np.eye(3))) > 1e-6 or np.max(np.abs(Q.dot(Uj) - Ui - np.outer(a, n))) > 1e-6:
                return "twinparam() does not solve the twinning equation"
    return None


# ================================================================== twin pair
class TwinPairKind:
    name = "twinpair"

    @staticmethod
    def gen_setup(rng, img):
        while True:
            s = TwinSystemKind.gen_setup(rng, img)
            s["via"] = "martensite"
            s["laue"] = "cubic"
            try:
                T = TwinSystemKind.truth(s)
            except ref.Ambiguous:
                continue
            if T["table"] and rng.random() < 0.9:
                s["pair"] = list(rng.choice(T["table"]))
            else:
                s["pair"] = [0, 1]
            return s

    @staticmethod
    def gen_related(rng, img, setup):
        s = dict(setup)
        if rng.random() < 0.5:
            s["pair"] = s["pair"][::-1]
        else:
            n = len(TwinSystemKind.truth({k: v for k, v in setup.items() if k != "pair"})["U"])
            s["pair"] = rng.sample(range(n), 2)
        T = TwinSystemKind.truth({k: v for k, v in s.items() if k != "pair"})
        try:
            for g in T["groups"].values():
                ref.conventional(T["U"][s["pair"][0]], T["U"][s["pair"][1]], g)
            ref.twinnable(T["U"][s["pair"][0]], T["U"][s["pair"][1]])
            return s
        except ref.Ambiguous:
            return TwinPairKind.gen_setup(rng, img)

    @classmethod
    def build(cls, img, setup):
        T = TwinSystemKind.truth({k: v for k, v in setup.items() if k != "pair"})
        i, j = setup["pair"]
        return img.TwinPair(np.array(T["U"][i]), np.array(T["U"][j]))

    @classmethod
    def gen_op(cls, rng, setup):
        op = {"q": "pair", "pq": rng.choice(TwinSystemKind.PAIR + ["direct_cof", "isconventional", "isconventional_g", "XI", "XII", "volumefrac"])}
        if op["pq"] == "isconventional_g":
            op["g"] = rng.choice(TwinSystemKind.GROUPS)
        return op

    @staticmethod
    def call(o, op, setup, img):
        if op["pq"] == "isconventional_g":
            return o.isconventional(TwinSystemKind.group(img, op["g"]))
        return getattr(o, op["pq"])()

    @classmethod
    def check(cls, setup, op, r):
        T = TwinSystemKind.truth({k: v for k, v in setup.items() if k != "pair"})
        i, j = setup["pair"]
        if op["pq"] in ("isconventional", "isconventional_g"):
            g = op.get("g", "two-fold")
            want = ref.twinnable(T["U"][i], T["U"][j]) and ref.conventional(T["U"][i], T["U"][j], T["groups"][g])
            return None if bool(r) == want else "isconventional(%s) is %s, should be %s" % (op.get("g", ""), r, want)
        if op["pq"] == "istwinnable":
            want = ref.twinnable(T["U"][i], T["U"][j])
            return None if bool(r) == want else "istwinnable() is %s" % r
        p = pair_check(op["pq"], T["U"][i], T["U"][j], T["groups"]["two-fold"], r)
        if p:
            return p
        return solo_check(cls, setup, op, r)

    @classmethod
    def expected_exc(cls, setup, op):
        return solo_exc(cls, setup, op)


def gen_objs(rng, img, kinds, count):
    """setups of several objects, often easily mistaken for each other"""
    objs = []
    for _ in range(count):
        k = rng.choice(kinds)
        prev = [o for o in objs if o["kind"] == k]
        if not prev and objs and rng.random() < 0.5:         # more often two of a kind
            k = objs[-1]["kind"]
            prev = [objs[-1]]
        if prev and hasattr(KINDS[k], "gen_related") and rng.random() < 0.7:
            setup = KINDS[k].gen_related(rng, img, rng.choice(prev)["setup"])
        else:
            setup = KINDS[k].gen_setup(rng, img)
        objs.append({"kind": k, "setup": setup})
    return objs


def gen_ops(rng, objs, n):
    """questions to the objects; half of the time only a few kinds of questions, asked again and again"""
    ops = []
    if rng.random() < 0.25:                               # two questions to one object against each other
        o = rng.randrange(len(objs))
        two = [KINDS[objs[o]["kind"]].gen_op(rng, objs[o]["setup"]) for _ in range(2)]
        return [dict(rng.choice(two), obj=o) for _ in range(n)]
    if rng.random() < 0.3:                                # many different questions about one thing
        o = rng.randrange(len(objs))
        K = KINDS[objs[o]["kind"]]
        if K.name in ("twinpair", "twinsystem"):
            first = K.gen_op(rng, objs[o]["setup"])
            few = rng.sample(["XI", "XII", "volumefrac", "ax", "twinparam", "iscompound", "habitplanes", "isconventional"], 4)
            if first["q"] == "pair":
                first.pop("g", None)
                return [dict(first, pq=rng.choice(few), obj=o) for _ in range(n + 2)]
    few = rng.random() < 0.5
    for _ in range(n):
        o = rng.randrange(len(objs))
        mine = [p for p in ops if p["obj"] == o]
        if few and len(mine) >= 2 and rng.random() < 0.8:
            op = dict(rng.choice(mine[:3]))
        else:
            op = KINDS[objs[o]["kind"]].gen_op(rng, objs[o]["setup"])
            op["obj"] = o
        ops.append(op)
    return ops


KINDS = {k.name: k for k in (LatticeKind, MartensiteKind, TwinSystemKind, TwinPairKind)}


def expected_exc(K, setup, op):
    return K.expected_exc(setup, op) if hasattr(K, "expected_exc") else solo_exc(K, setup, op)


def judge(K, setup, op, outcome):
    """text of the problem with one operation's outcome, or None"""
    exp = expected_exc(K, setup, op)
    if outcome[0] == "exc":
        if outcome[1] in exp:
            return None
        return "%s raised %s: %s" % (describe(op), outcome[1], outcome[2])
    if exp:
        p = K.check(setup, op, outcome[1]) if not exp else "returned an answer, a fresh object raises %s" % exp[0]
        return "%s %s" % (describe(op), p)
    try:
        p = K.check(setup, op, outcome[1])
    except ref.Ambiguous:
        return None
    except Exception as e:
        return "%s returned something unusable (%s: %s)" % (describe(op), type(e).__name__, e)
    return ("%s: %s" % (describe(op), p)) if p else None


def describe(op):
    return op.get("pq") or op["q"]
