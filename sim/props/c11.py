"""C11: queries cut short at arbitrary lines, then more queries on the same object."""
from .. import engine, env
from . import c08, objects
from .common import *


def gen(rng, tier, i):
    img = oracle_image()
    with env.world(0):
        k = rng.choice(["lattice", "lattice", "martensite", "twinsystem", "twinpair"])
        K = objects.KINDS[k]
        objs = objects.gen_objs(rng, img, [k], rng.choice([1, 1, 1, 2]))
        nt = rng.choice([1, 1, 1, 2, 3])
        threads, armed, n = [], [], 0
        for t in range(nt):
            ops = []
            for j in range(rng.randrange(2, 5)):
                o = rng.randrange(len(objs))
                op = dict(K.gen_op(rng, objs[o]["setup"]), obj=o, id=n)
                if j and rng.random() < 0.4:
                    op = dict(ops[-1], id=n)          # retry of the same query
                elif j and rng.random() < 0.3:
                    op = dict(rng.choice(ops), id=n)
                ops.append(op)
                if rng.random() < (0.8 if j == 0 else 0.35):
                    armed.append([t, n, rng.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError"])])
                n += 1
            threads.append(ops)
        # afterwards: unarmed queries
        for _ in range(rng.randrange(1, 4)):
            o = rng.randrange(len(objs))
            threads[0].append(dict(K.gen_op(rng, objs[o]["setup"]), obj=o, id=n))
            n += 1
    return {"objs": objs, "threads": threads, "sched": new_sched(rng), "intr": {"seed": rng.randrange(1 << 40), "armed": armed},
            "world": rng.randrange(1 << 30)}


def run(plan, out):
    img = fresh_image()
    with env.world(plan["world"]), img.active(), sched.patched_locks():
        built = [objects.KINDS[o["kind"]].build(img, o["setup"]) for o in plan["objs"]]

        def do(t, op):
            o = plan["objs"][op["obj"]]
            return objects.KINDS[o["kind"]].call(built[op["obj"]], op, o["setup"], img)
        res = engine.run_threads(plan, out, do)
        fired = engine.fired_ops(out.plan)
        skip = {k for k in fired if res.get(k, ("ok",))[0] == "exc"}      # raised, as it should
        for k in fired:
            out.probe("interrupted query raised" if k in skip else "interrupted query still answered")
        c08.judge_all(plan, out, res, skip)
        out.nontrivial = bool(fired)
    return out


def shrink(plan, fails):
    return engine.shrink_threads(plan, fails)
