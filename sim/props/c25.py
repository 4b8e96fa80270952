"""C25: sequences of completed searches in one process (and in long-lived worker processes)."""
import json
from .searches import *
from . import searches


def related(rng, img, s):
    """a search that is easily mistaken for s; None if this variation does not apply"""
    s = copy.deepcopy(s)
    if s["op"] == "opt":
        k = rng.randrange(12)
        if k == 0:                                   # another sublattice of the same size
            E1 = np.array(s["E1"])
            h = np.array(rng.choice(ref.sublattices(rng.choice([1, 2]))))
            s["E1"] = E1.dot(h).tolist()
        elif k == 1:
            s["E1"] = (np.array(s["E1"]) * rng.choice([1.0005, 1.01, 0.99])).tolist()
        elif k == 2:
            s["E2"] = (np.array(s["E2"]) * rng.choice([1.0005, 1.01, 0.99])).tolist()
        elif k == 3:
            s["dist"] = rng.choice(["Cauchy", "Ericksen", "strain"])
        elif k == 4:
            s["nsol"] = rng.choice([1, 2, 3, 5])
        elif k == 5:
            s["miniter"], s["maxiter"] = rng.choice([(0, 1), (0, 2), (1, 1), (1, 2), (0, 3), (0, None), (1, None)])
        elif k == 6:
            s["G2"] = rng.choice([None, "one", "two", "four"])
        elif k == 7:
            s["E1"], s["E2"] = s["E2"], s["E1"]
        elif k == 8:
            s["via"] = rng.choice(["lat_opt", "unpack"])
            s["ihnf"] = rng.choice([None, 0, 1, 3])
        elif k < 11:                                 # another lattice of the same volume
            w = rng.choice(["E1", "E1", "E2"])
            E = np.array(s[w])
            i, j = rng.sample(range(3), 2)
            x = rng.choice([1.02, 1.1, 1.3])
            if rng.random() < 0.5:
                E[:, i], E[:, j] = E[:, i] * x, E[:, j] / x
            else:
                E[:, i] += (x - 1) * E[:, j]
            s[w] = E.tolist()
        else:
            s[rng.choice(["nsol", "dist", "maxiter"])] = None
        return s
    ok = lambda spec: gens.ok_lattice(img, spec, 2 if s["op"] == "direct" else 3)
    k = rng.randrange(10)
    if k == 0:
        s["nsol"] = rng.choice([1, 2, 3])
    elif k == 1:
        n = gens.NLEN2 if s["op"] == "direct" else gens.NLEN
        w = rng.choice(["a", "m"])
        same = [i + 1 for i in range(len(n)) if n[i] == n[s[w][0] - 1] and i + 1 != s[w][0]]
        s[w][0] = rng.choice(same or [s[w][0]])
        if len(gens.bravais(rng, 2 if s["op"] == "direct" else 3, ids=[s[w][0]])[1]) != len(s[w][1]) or not ok(s[w]):
            return None
    elif k == 2:
        s["a"], s["m"] = s["m"], s["a"]
    elif k == 3:
        w = rng.choice(["a", "m"])
        s[w] = gens.scaled(s[w], rng.choice([1.002, 1.01, 0.995]), 2 if s["op"] == "direct" else 3)
    elif k == 4:                                     # another lattice of the same volume: the lengths are exchanged or rescaled
        w = rng.choice(["a", "a", "m"])
        n = (gens.NLEN2 if s["op"] == "direct" else gens.NLEN)[s[w][0] - 1]
        if n < 2:
            return None
        p, (i, j) = s[w][1], rng.sample(range(n), 2)
        if rng.random() < 0.5:
            p[i], p[j] = p[j], p[i]
        elif n == 3:
            x = rng.choice([1.02, 1.1])
            p[i], p[j] = p[i] * x, p[j] / x
        else:
            x = rng.choice([1.02, 1.1])
            p[0], p[1] = p[0] * x, p[1] / x / x
        if not ok(s[w]):
            return None
    elif s["op"] == "direct":
        s["slice"] = rng.choice([17, 60, 100, 250, None])
    elif k == 9:
        s["dist"] = rng.choice(["Cauchy", "Ericksen", "strain"])
    elif k == 5:
        s["miniter"], s["maxiter"] = rng.choice([(0, 1), (0, 2), (1, 1), (0, None)])
    elif k == 8:
        s[rng.choice(["nsol", "dist", "maxiter", "vol_th"])] = None
    elif k == 6:
        s["vol_th"] = rng.choice([0.02, 0.1, 0.2, 0.3])
    else:
        if s["par"]:
            s["par"] = None
        else:
            s["par"] = P.gen_spec(rng)
            s["poolsize"] = rng.choice([None, 1, 2, 3])
    E1, E2 = gens.base(img, s["a"], 2 if s["op"] == "direct" else 3), gens.base(img, s["m"], 2 if s["op"] == "direct" else 3)
    r = la.det(E2) / la.det(E1)
    if la.cond(E1) > 6 or la.cond(E2) > 6 or r < 0.3 or r > 3.4:
        return None
    if s["op"] == "direct":
        return s if 0.6 < r < 2.3 and max(la.cond(E1), la.cond(E2)) < 2.3 else None
    try:
        return s if sum(ref.admissible(r, 0.1 if s["vol_th"] is None else s["vol_th"])) <= 2 else None
    except ref.Ambiguous:
        return None


def gen(rng, tier, i):
    img = oracle_image()
    with env.world(0):
        kinds = rng.choice([["opt"], ["opt"], ["hnf", "hnf", "par"], ["hnf", "par", "opt"], ["direct"]] if rng.random() < 0.5 else [["opt"], ["hnf", "par", "opt"]])
        if kinds == ["direct"] and rng.random() < 0.5:
            kinds = ["direct", "opt", "hnf"]
        ops = []
        n = rng.choice([2, 3, 4, 6]) if kinds == ["opt"] else rng.choice([2, 2, 3, 4])
        for j in range(n):
            s = None
            if ops and rng.random() < 0.8:
                s = related(rng, img, rng.choice(ops[-3:]))
            if s is None:
                s = GEN[rng.choice(kinds)](rng, img)
            ops.append(affordable(s))
        if rng.random() < 0.4:                       # ask an earlier question again
            ops.append(copy.deepcopy(rng.choice(ops)))
    for s in ops:
        s["rseed"] = rng.randrange(1 << 30)
        s["disp"] = rng.choice([0, 0, 1, 3])
    return {"ops": ops, "world": rng.randrange(1 << 30)}


def run(plan, out):
    img = fresh_image()
    got = []
    with env.world(plan["world"], draw_budget=c06.BUDGET), img.active():
        shared = {"held": {}, "workers": pools.RealWorkers()}
        for s in plan["ops"]:
            env.CUR.draws = 0
            try:
                r = ("ok", perform(img, s, shared))
            except env.SimHang as e:
                r = ("exc", "does not finish (%s)" % e)
            except Exception as e:
                r = ("exc", "%s: %s" % (type(e).__name__, e))
            got.append(frozen(r))
            out.steps += 1
        for k, v in shared["held"].items():
            if not np.array_equal(v, np.array(json.loads(k))):
                out.bad("a search overwrote an array it was given (%s)" % k[:200])
        out.vtime += env.CUR.clock.span
    for j, (s, g) in enumerate(zip(plan["ops"], got)):
        if j == 0 and len(got) > 1:
            continue
        want, _ = solo(dict(s, disp=0), clock="steady")
        if not same_answer(s, g, want):
            out.bad("%s after %d other search(es) in the process: %s; in a fresh process: %s" % (describe(s), j, short(g), short(want)))
            break
        out.probe("later " + ("par" if s.get("par") else s["op"]))
    out.fault("earlier searches with related arguments", len(got) - 1)
    out.feed(got)
    out.sig = engine.sig_of([{k: v for k, v in s.items() if k not in ("rseed", "disp")} for s in plan["ops"]])
    out.nontrivial = len(got) > 1


def shrink(plan, fails):
    cur = plan

    def test(ops):
        nonlocal cur
        c = dict(cur, ops=ops)
        if ops and fails(c) is not None:
            cur = c
            return True
    engine.ddmin(plan["ops"], test)
    return cur
