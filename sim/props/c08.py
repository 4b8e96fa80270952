"""C08/C09/C10: objects shared between threads; see objects.py for the oracles."""
from .. import engine, env
from . import objects
from .common import *

KINDS = ["lattice"]


def gen(rng, tier, i, kinds=None, nthreads=None):
    img = oracle_image()
    with env.world(0):
        objs = objects.gen_objs(rng, img, kinds or KINDS, rng.choice([1, 1, 1, 2, 2, 3]))
        nt = nthreads or rng.choice([2, 2, 3, 4] if tier == "quick" else [2, 3, 4, 5])
        nops = rng.randrange(nt, 3 * nt + 1) if tier == "quick" else rng.randrange(nt, 4 * nt + 1)
        ops = objects.gen_ops(rng, objs, nops)
        if len(ops) > 1 and rng.random() < 0.5:      # overlapping first queries of the same kind
            ops[1:nt] = [dict(ops[0]) if op["obj"] == ops[0]["obj"] else op for op in ops[1:nt]]
        ops = [dict(o) for o in ops]
    return {"objs": objs, "threads": split_ops(rng, ops, nt), "sched": new_sched(rng), "world": rng.randrange(1 << 30)}


def run(plan, out):
    img = fresh_image()
    with env.world(plan["world"]), img.active(), sched.patched_locks():
        built = []
        for o in plan["objs"]:
            built.append(objects.KINDS[o["kind"]].build(img, o["setup"]))

        def do(t, op):
            o = plan["objs"][op["obj"]]
            return objects.KINDS[o["kind"]].call(built[op["obj"]], op, o["setup"], img)
        res = engine.run_threads(plan, out, do)
        # afterwards: one more full round, alone, must still be right
        judge_all(plan, out, res)
        out.nontrivial = out.faults.get("preemption", 0) > 0
    return out


def judge_all(plan, out, res, skip=()):
    for t, ops in enumerate(plan["threads"]):
        for op in ops:
            r = res.get((t, op["id"]))
            o = plan["objs"][op["obj"]]
            if r is None or (t, op["id"]) in skip:
                continue
            p = objects.judge(objects.KINDS[o["kind"]], o["setup"], op, r)
            if p:
                out.bad("thread %d, operation %d on a shared %s %s: %s" % (t, op["id"], o["kind"], brief(o), p))
            out.probe(o["kind"] + "." + objects.describe(op))


def brief(o):
    s = o["setup"]
    return str(s.get("spec") or s.get("U"))


def shrink(plan, fails):
    return engine.shrink_threads(plan, fails)
