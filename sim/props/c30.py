"""C30: calls made in the middle of other calls of the same thread (signal handlers, finalisers, callbacks)."""
import random
from .searches import *
from . import c14, c15, c26, objects, pools, searches


class Workers(pools.RealWorkers):
    """what happens inside another process is not in the middle of a call of this one"""
    nest = None

    def __call__(self, task, args):
        self.nest.off += 1
        try:
            return pools.RealWorkers.__call__(self, task, args)
        finally:
            self.nest.off -= 1


class Nest:
    """decides at which lines of which operation another call is made"""

    def __init__(self, rng, todo, act):
        self.rng, self.act = rng, act
        self.todo = {k: list(v) for k, v in todo.items()}         # (thread, operation) -> operations nested into it
        self.p_new = rng.choice([0.005, 0.02, 0.05, 0.2])
        self.p_rep = rng.choice([0.0, 0.0003, 0.002])
        self.p_hot = max(self.p_new, rng.choice([0.1, 0.4]))
        self.focus = sched.Focus(rng, 0.6)
        self.seen, self.fired, self.off, self.answers = {}, [], 0, {}

    def pick(self, tid, op, k, site, hot, fn):
        l = self.todo.get((tid, op))
        if not l or not self.focus(fn):
            return None
        n = self.seen.get((tid, op, site), 0)
        self.seen[(tid, op, site)] = n + 1
        if self.rng.random() < (self.p_hot if hot and n < 3 else self.p_new if n == 0 else self.p_rep):
            return l.pop(0)
        return None

    def at(self, tid, op, k, site, hot=False, fn=None):
        if self.off:
            return None
        o = self.pick(tid, op, k, site, hot, fn)
        if o is None:
            return None
        self.fired.append([tid, op, k, o["id"]])
        self.sites = getattr(self, "sites", []) + ["op%s line#%d %s:%d makes call %s" % (op, k, site[0], site[1], o["id"])]
        keep = dict(env._stream.__dict__), env.CUR.draws, env.CUR.on_sleep
        self.off += 1
        try:
            self.answers[o["id"]] = ("ok", self.act(o))
        except (sched.SimAbort, env.SimHang):
            raise
        except Exception as e:
            self.answers[o["id"]] = ("exc", type(e).__name__, str(e)[:200])
        finally:
            self.off -= 1
            env._stream.__dict__.clear()
            env._stream.__dict__.update(keep[0])
            env.CUR.draws, env.CUR.on_sleep = keep[1:]
        return None


class ListNest(Nest):
    def __init__(self, lst, todo, act):
        Nest.__init__(self, random.Random(0), todo, act)
        by = {o["id"]: o for l in todo.values() for o in l}
        self.where = {(a, b, c): by[d] for a, b, c, d in lst if d in by}

    def pick(self, tid, op, k, site, hot, fn):
        return self.where.get((tid, op, k))


def gen(rng, tier, i):
    img = oracle_image()
    with env.world(0):
        what = rng.choice(["search", "search", "obj", "obj", "func", "func", "mixed"])
        nt = rng.choice([1, 1, 1, 2]) if what in ("obj", "func") else 1
        objs, few, pool, n = [], rng.sample(c26.usual(rng), rng.choice([1, 2, 4])), [], [0]
        if what in ("obj", "mixed"):
            objs = objects.gen_objs(rng, img, [rng.choice(["lattice", "martensite", "twinsystem", "twinpair", "group"])], rng.choice([1, 1, 2]))
            for o in objs:
                o["form"] = rng.randrange(3)

        def new(kind, outer):
            op = {"what": kind, "id": n[0], "rseed": rng.randrange(1 << 30)}
            n[0] += 1
            like = [p for p in pool if p["what"] == kind]
            if kind == "func":
                op["rseed"] = rng.randrange(4)
                x = rng.random()
                if like and x < 0.25:
                    op.update(f=like[-1]["f"], args=copy.deepcopy(like[-1]["args"]))
                elif like and x < 0.7:
                    v = c26.vary(rng, like[-1])
                    op.update(f=v["f"], args=v["args"])
                else:
                    op["f"] = rng.choice(few)
                    op["args"] = c26.FUNCS[op["f"]].gen(rng)
            elif kind == "obj":
                o = rng.randrange(len(objs))
                if like and rng.random() < 0.25:
                    op.update({k: v for k, v in like[-1].items() if k not in op})
                else:
                    op.update(objects.KINDS[objs[o]["kind"]].gen_op(rng, objs[o]["setup"]), obj=o)
            else:
                if like and rng.random() < 0.4:
                    s = copy.deepcopy(like[-1]["s"])
                    if s["op"] == "opt":
                        s["nsol"] = rng.choice([1, 2, 3])
                else:
                    k = rng.choice(["opt", "opt", "opt", "hnf", "par", "opt2"] if outer else ["opt", "opt", "opt", "opt", "hnf", "par", "opt2"])
                    s = GEN[k](rng, img)
                    if not outer and s["op"] == "hnf" and s["nsol"] > 2:
                        s["nsol"] = 2
                    if s["op"] == "opt" and s["maxiter"] is None:
                        s["maxiter"] = 1
                s.pop("log", None), s.pop("loglevel", None)
                if s["op"] == "opt" and rng.random() < 0.3:
                    s["log"] = "/simfs/%d.log" % op["id"]
                    s["loglevel"] = rng.choice([None, 10, 20])
                s["disp"] = rng.choice([0, 0, 1, 3])
                if not outer and s.get("par") and rng.random() < 0.3:
                    s["par"]["faults"] = {"0": "ValueError"}
                op["s"] = s
            pool.append(copy.deepcopy(op))
            return op
        kinds = {"search": ["search"], "obj": ["obj"], "func": ["func"], "mixed": ["search", "func", "obj"]}[what]
        inner = {"search": ["search", "search", "search", "func"], "obj": ["obj"], "func": ["func"], "mixed": ["obj", "func", "func", "search"]}[what]
        direct = what == "search" and rng.random() < 0.06
        threads, nest = [], []
        for t in range(nt):
            ops = []
            for _ in range(rng.choice([1, 1, 2]) if "search" in kinds else rng.choice([1, 2, 3])):
                op = new(rng.choice(kinds), True)
                if direct:
                    op = {"what": "search", "id": op["id"], "rseed": op["rseed"], "s": dict(gen_direct(rng, img), disp=0)}
                ops.append(op)
                for _ in range(rng.choice([1, 1, 2])):
                    nest.append([t, op["id"], new(rng.choice(inner), False)])
            threads.append(ops)
    return {"objs": objs, "threads": threads, "nest": nest, "at": {"seed": rng.randrange(1 << 40)}, "sched": new_sched(rng),
            "world": rng.randrange(1 << 30), "skip": list(DIRECT_SKIP) if direct else []}


def run(plan, out):
    img = fresh_image()
    with env.world(plan["world"], clock="frozen", draw_budget=c06.BUDGET), img.active(), sched.patched_locks():
        held, shared = {}, {}
        ops = {o["id"]: o for l in plan["threads"] for o in l}
        ops.update((o["id"], o) for _, _, o in plan["nest"])
        for o in ops.values():
            if o["what"] == "func":
                c26.resolve(img, c26.FUNCS[o["f"]])
                for a in o["args"]:
                    c26.thaw(a, held)
        built = [c15.build(img, o["kind"], o["setup"], o["form"])[0] for o in plan["objs"]]

        def act(o):
            if o["what"] == "func":
                return engine.freeze(c26.perform(img, o, held))
            if o["what"] == "obj":
                k = plan["objs"][o["obj"]]
                return copy.deepcopy(objects.KINDS[k["kind"]].call(built[o["obj"]], o, k["setup"], img))
            env.CUR.draws = 0
            w = shared["workers"] = Workers()
            w.nest = N
            return perform(img, dict(o["s"], rseed=o["rseed"]), {"workers": w})
        todo = {}
        for t, o, x in plan["nest"]:
            todo.setdefault((t, o), []).append(x)
        N = Nest(random.Random(plan["at"]["seed"]), todo, act) if "seed" in plan["at"] else ListNest(plan["at"]["list"], todo, act)
        res = engine.run_threads(plan, out, lambda t, o: act(o), budget=6000000, intr=N)
        files = dict(env.CUR.fs.files)
    out.plan["at"] = {"list": N.fired}
    out.trace += getattr(N, "sites", [])
    out.fault("nested call", len(N.fired))
    out.feed([N.fired, sorted((k, v[0], engine.freeze(v[1])) for k, v in N.answers.items())])
    into = {}
    for t, o, k, x in N.fired:
        into.setdefault(o, []).append(x)
    with env.world(0):
        for t, l in enumerate(plan["threads"]):
            for o in l:
                if (t, o["id"]) in res and o["id"] in into:
                    judge(plan, out, o, res[(t, o["id"])], files, "%s in whose middle %s" % (name(plan, o), " and ".join(
                        name(plan, ops[x]) for x in into[o["id"]]) + " was called"))
                elif (t, o["id"]) in res:
                    judge(plan, out, o, res[(t, o["id"])], files, "%s after calls in the middle of others" % name(plan, o))
        for t, o, k, x in N.fired:
            if x in N.answers:
                judge(plan, out, ops[x], N.answers[x], files, "%s called in the middle of %s" % (name(plan, ops[x]), name(plan, ops[o])))
                out.probe("%s in %s" % (ops[x]["what"], ops[o]["what"]))
    out.nontrivial = bool(N.fired)
    out.sig = engine.sig_of((out.sig, N.fired, plan["objs"], [name(plan, o) for o in ops.values()]))


def judge(plan, out, o, r, files, what):
    if o["what"] == "obj":
        k = plan["objs"][o["obj"]]
        q = objects.judge(objects.KINDS[k["kind"]], k["setup"], o, r)
        if q:
            out.bad("%s: %s" % (what, q))
    elif o["what"] == "func":
        want = c26._solo(o["f"], json.dumps(o["args"]), o["rseed"])
        if r[0] == "exc" or want[0] == "exc":
            if (r[0], r[1]) != (want[0], want[1]):
                out.bad("%s %s, alone it %s" % (what, "raised %s: %s" % tuple(r[1:3]) if r[0] == "exc" else "returned", "raises " + want[1] if want[0] == "exc" else "returns"))
        elif not engine.close(r[1], want[1], 1e-9):
            out.bad("%s returned %s, alone %s" % (what, str(r[1])[:200], str(want[1])[:200]))
    else:
        s = dict(o["s"], rseed=o["rseed"])
        faulty = bool(s.get("par") and s["par"]["faults"])
        if faulty and r[0] == "exc":
            return
        want, log = solo(s)
        got = frozen(r)
        if not same_answer(s, got, want):
            out.bad("%s: %s; alone: %s" % (what, short(got), short(want)))
        elif s.get("log") and not faulty and files.get(s["log"], "") != (log or ""):
            out.bad("%s: log file: %s" % (what, c14.difference(files.get(s["log"], ""), log or "")))


def name(plan, o):
    if o["what"] == "func":
        return c26.FUNCS[o["f"]].name
    if o["what"] == "obj":
        return "%s.%s" % (plan["objs"][o["obj"]]["kind"], objects.describe(o))
    return describe(o["s"])


def shrink(plan, fails):
    best = engine.shrink_threads(plan, fails)
    cur = [best]

    def test(l):
        c = copy.deepcopy(cur[0])
        c["at"]["list"] = l
        r = fails(c)
        if r is not None:
            cur[0] = r if "rec" in r.get("sched", {}) else c
        return r is not None
    if "list" in best["at"]:
        engine.ddmin(best["at"]["list"], test)
    return cur[0]
