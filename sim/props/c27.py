"""C27: objects copied, pickled and sent to other processes while they are in use."""
import pickle
from .. import engine, env
from . import c15, objects
from .common import *

HOW = ["copy", "deepcopy", "deepcopy", "pickle", "pickle", "pickle2", "pickle4"]
NAMES = ["lattice", "lattice", "martensite", "martensite", "twinsystem", "twinpair", "group"]


def duplicate(o, how):
    if how == "copy":
        return copy.copy(o)
    if how == "deepcopy":
        return copy.deepcopy(o)
    p = {"pickle": pickle.HIGHEST_PROTOCOL, "pickle2": 2, "pickle4": 4}[how]
    return pickle.loads(pickle.dumps(o, p))


def gen(rng, tier, i):
    img = oracle_image()
    with env.world(0):
        kinds = rng.sample(NAMES, rng.choice([1, 1, 2]))
        objs = objects.gen_objs(rng, img, kinds, rng.choice([1, 1, 2]))
        for o in objs:
            o["form"] = rng.randrange(3)
        nt = rng.choice([1, 1, 2, 2, 3])
        intr = rng.random() < 0.3
        threads, armed, n, dups = [], [], 0, {}
        for t in range(nt):
            ops = []
            for j in range(rng.randrange(2, 7)):
                o = rng.randrange(len(objs))
                K = objects.KINDS[objs[o]["kind"]]
                x = rng.random()
                mine = dups.setdefault(o, [])
                op = {"obj": o, "id": n, "on": rng.choice(mine) if mine and rng.random() < 0.6 else None}
                if x < 0.4:
                    op.update(q="dup", how=rng.choice(HOW))
                    mine.append(n)
                elif ops and x < 0.55 and ops[-1]["q"] != "dup" and ops[-1]["obj"] == o:
                    op = dict(ops[-1], id=n)                      # the same question to somebody else
                    op["on"] = rng.choice(mine) if mine else None
                else:
                    op = dict(K.gen_op(rng, objs[o]["setup"]), **op)
                if intr and rng.random() < 0.4:
                    armed.append([t, n, rng.choice(["KeyboardInterrupt", "MemoryError"])])
                ops.append(op)
                n += 1
            threads.append(ops)
        # afterwards, one after another: the object, every copy, and copies that have crossed to another process
        after = []
        for o, ob in enumerate(objs):
            K = objects.KINDS[ob["kind"]]
            qs = [dict(K.gen_op(rng, ob["setup"])) for _ in range(2)]
            for d in [None] + dups.get(o, []):
                after.append({"obj": o, "on": d, "qs": qs if rng.random() < 0.6 else [dict(K.gen_op(rng, ob["setup"]))], "ship": rng.random() < 0.5})
    # the receiving process has objects of its own, of the same kinds
    there = []
    if any(a["ship"] for a in after) and rng.random() < 0.7:
        with env.world(0):
            there = objects.gen_objs(rng, img, kinds, rng.choice([1, 2]))
            for o in there:
                o["form"] = rng.randrange(3)
                o["ops"] = [dict(objects.KINDS[o["kind"]].gen_op(rng, o["setup"])) for _ in range(2)]
    p = {"objs": objs, "threads": threads, "after": after, "there": there, "sched": new_sched(rng), "world": rng.randrange(1 << 30)}
    if armed:
        p["intr"] = {"seed": rng.randrange(1 << 40), "armed": armed}
    return p


def run(plan, out):
    img = fresh_image()
    where = fresh_image() if any(a["ship"] for a in plan["after"]) else None
    with env.world(plan["world"]), img.active(), sched.patched_locks():
        built = [c15.build(img, o["kind"], o["setup"], o["form"])[0] for o in plan["objs"]]
        made = {}

        def target(op):
            return made.get(op["on"], built[op["obj"]]) if op["on"] is not None else built[op["obj"]]

        def do(t, op):
            o = plan["objs"][op["obj"]]
            x = target(op)
            if op["q"] == "dup":
                d = duplicate(x, op["how"])
                if type(d) is not type(x):
                    raise TypeError("a %s became a %s" % (type(x).__name__, type(d).__name__))
                made[op["id"]] = d
                return None
            return objects.KINDS[o["kind"]].call(x, op, o["setup"], img)
        res = engine.run_threads(plan, out, do)
        fired = engine.fired_ops(out.plan)
        for t, ops in enumerate(plan["threads"]):
            for op in ops:
                r = res.get((t, op["id"]))
                o = plan["objs"][op["obj"]]
                if r is None or ((t, op["id"]) in fired and r[0] == "exc"):
                    continue
                if op["q"] == "dup":
                    out.fault("duplicated (%s)" % op["how"])
                    if r[0] == "exc":
                        out.bad("%s of a %s failed: %s: %s" % (op["how"], o["kind"], r[1], r[2]))
                    continue
                judge(out, o, op, r, "a %s" % o["kind"] if op["on"] is None else "a %s or its copy" % o["kind"])
        shipped = []
        for a in plan["after"]:
            x = target(a)
            o = plan["objs"][a["obj"]]
            K = objects.KINDS[o["kind"]]
            what = "a copied %s" % o["kind"] if a["on"] in made else "a %s that was copied" % o["kind"]
            if a["ship"]:
                try:
                    shipped.append((a, pickle.dumps(x)))
                except Exception as e:
                    out.bad("%s cannot be sent to another process: %s: %s" % (what, type(e).__name__, e))
            for q in a["qs"]:
                judge(out, o, q, attempt(K, x, q, o, img), what)
    if shipped:
        with env.world(plan["world"]), where.active(), sched.patched_locks():
            natives = []
            for o in plan["there"]:
                K = objects.KINDS[o["kind"]]
                x = c15.build(where, o["kind"], o["setup"], o["form"])[0]
                judge(out, o, o["ops"][0], attempt(K, x, o["ops"][0], o, where), "a %s of the receiving process" % o["kind"])
                natives.append((K, x, o))
            for a, b in shipped:
                o = plan["objs"][a["obj"]]
                K = objects.KINDS[o["kind"]]
                what = "a %s received by another process" % o["kind"]
                out.fault("sent to another process")
                try:
                    x = pickle.loads(b)
                except Exception as e:
                    out.bad("%s cannot be restored: %s: %s" % (what, type(e).__name__, e))
                    continue
                for q in a["qs"]:
                    judge(out, o, q, attempt(K, x, q, o, where), what)
            for K, x, o in natives:
                for q in o["ops"]:
                    judge(out, o, q, attempt(K, x, q, o, where), "a %s of the receiving process" % o["kind"])
    out.sig = engine.sig_of((out.sig, [[(o["q"], o.get("pq"), o["obj"], o["on"], o.get("how")) for o in t] for t in plan["threads"]], plan["objs"]))
    out.nontrivial = any(op["q"] == "dup" for ops in plan["threads"] for op in ops)
    return out


def attempt(K, x, q, o, img):
    try:
        return ("ok", copy.deepcopy(K.call(x, q, o["setup"], img)))
    except Exception as e:
        return ("exc", type(e).__name__, str(e)[:200])


def judge(out, o, op, r, what):
    K = objects.KINDS[o["kind"]]
    out.feed((op.get("q"), r[0], engine.freeze(r[1])))
    p = objects.judge(K, o["setup"], op, r)
    if p:
        out.bad("%s: %s" % (what, p))
    out.probe(o["kind"] + "." + objects.describe(op))


def shrink(plan, fails):
    return engine.shrink_threads(plan, fails)
