"""C28: what calls leave behind in the process: settings, handlers, open files, threads."""
import errno, gc, locale, logging, os, signal, sys, threading, warnings
from .searches import *
from . import c15, c26, objects, searches
from ..sched import SimLock

SIGS = [getattr(signal, n) for n in ("SIGINT", "SIGTERM", "SIGALRM", "SIGUSR1", "SIGCHLD", "SIGPIPE") if hasattr(signal, n)]


def settings():
    """process-wide settings a caller relies on"""
    root = logging.root
    d = {"logging: root logger": (root.level, list(map(id, root.handlers)), len(root.filters), root.disabled),
         "logging: disabled level": root.manager.disable,
         "logging: raiseExceptions": logging.raiseExceptions,
         "logging: logger class": id(logging.getLoggerClass()), "logging: record factory": id(logging.getLogRecordFactory()),
         "logging: level names": tuple(logging.getLevelName(k) for k in (10, 20, 30, 40, 50)),
         "numpy print options": repr(sorted(np.get_printoptions().items(), key=lambda x: x[0])),
         "numpy buffer size": np.getbufsize(),
         "warning filters": repr(warnings.filters), "warnings.showwarning": id(warnings.showwarning),
         "recursion limit": sys.getrecursionlimit(), "switch interval": sys.getswitchinterval(),
         "excepthook": id(sys.excepthook), "displayhook": id(sys.displayhook), "sys.path": tuple(sys.path), "sys.argv": tuple(sys.argv),
         "stdin": id(sys.stdin), "stderr": id(sys.stderr),
         "environment": tuple(sorted(os.environ.items())), "working directory": os.getcwd(),
         "locale": locale.setlocale(locale.LC_ALL), "signal handlers": tuple(id(signal.getsignal(s)) for s in SIGS),
         "garbage collector": gc.isenabled() if hasattr(gc, "isenabled") else None,
         "random seeds": (env.CUR.seeds, random.getstate()),
         "threads": threading.active_count()}
    for n, l in sorted(root.manager.loggerDict.items()):
        if isinstance(l, logging.Logger):
            d["logger " + n] = (l.level, list(map(id, l.handlers)), len(l.filters), l.disabled, l.propagate)
    return d


def mine():
    """settings of the calling thread"""
    d = {"numpy error handling": repr(sorted(np.geterr().items())), "numpy error callback": id(np.geterrcall())}
    try:
        import decimal
        d["decimal context"] = repr(decimal.getcontext())
    except Exception:
        pass
    return d


def changed(a, b):
    ks = [k for k in a if k in b and a[k] != b[k]] + [k for k in b if k not in a and not k.startswith("logger ")]
    # a logger that did not exist before may have been created, but not with handlers of its own
    ks += [k for k in b if k not in a and k.startswith("logger ") and b[k][1]]
    return sorted(ks)


FAIL = {"search": ["intr", "stdout", "device", "worker", "none"], "func": ["intr", "none"], "obj": ["intr", "none"]}


def gen(rng, tier, i):
    img = oracle_image()
    with env.world(0):
        nt = rng.choice([1, 1, 2, 2, 3])
        objs = objects.gen_objs(rng, img, [rng.choice(["lattice", "martensite", "twinsystem", "twinpair"])], rng.choice([1, 2]))
        few = rng.sample(c26.usual(rng), 4)
        kinds = rng.choice([["search"], ["search", "func"], ["func", "obj"], ["obj"], ["func"]])
        threads, armed, n = [], [], 0
        for t in range(nt):
            ops = []
            for _ in range(rng.choice([1, 2, 3] if "search" in kinds else [2, 3, 5])):
                k = rng.choice(kinds)
                f = rng.choice(FAIL[k])
                op = {"what": k, "id": n, "rseed": rng.randrange(1 << 30)}
                if k == "func":
                    name = rng.choice(few)
                    op.update(f=name, args=c26.FUNCS[name].gen(rng))
                    if rng.random() < 0.1 and op["args"]:
                        op["args"][0] = {"list": []}                       # unusable arguments
                elif k == "obj":
                    o = rng.randrange(len(objs))
                    op.update(objects.KINDS[objs[o]["kind"]].gen_op(rng, objs[o]["setup"]), obj=o, fresh=rng.random() < 0.5)
                else:
                    kind = rng.choice(["opt", "opt", "hnf", "par" if nt == 1 else "hnf", "opt2"])
                    s = GEN[kind](rng, img)
                    if s["op"] == "opt" and rng.random() < 0.7:
                        s["log"] = "/simfs/%s.log" % rng.choice("ab")
                        s["loglevel"] = rng.choice([None, 10, 20])
                    s["disp"] = rng.choice([0, 0, 1, 2, 3])
                    if f == "stdout" and nt == 1:
                        s["disp"] = 3
                        s["stdout_fail"] = rng.randrange(1, 20)
                    if f == "device" and s.get("log"):
                        op["device"] = [[k2, rng.choice([errno.EIO, errno.ENOSPC])] for k2 in range(1, rng.choice([2, 4, 40]))]
                        op["closefail"] = rng.random() < 0.3
                    if f == "worker" and s.get("par"):
                        s["par"]["faults"] = {"0": rng.choice(["ValueError", "MemoryError"])}
                    op["s"] = s
                if f == "intr":
                    armed.append([t, n, rng.choice(["KeyboardInterrupt", "MemoryError"])])
                ops.append(op)
                n += 1
            threads.append(ops)
        if nt == 1 and kinds == ["search"] and rng.random() < 0.08:
            threads[0].append({"what": "search", "id": n, "rseed": 1, "s": dict(gen_direct(rng, img), log="/simfs/d.log", disp=rng.choice([0, 2]))})
            if rng.random() < 0.6:
                armed.append([0, n, "KeyboardInterrupt"])
    # the caller's own settings, in most runs not the defaults
    house = {}
    if rng.random() < 0.8:
        house = {"print": {"precision": rng.choice([4, 6, 10]), "suppress": rng.random() < 0.5, "linewidth": 70}, "err": {"under": "warn", "over": rng.choice(["warn", "ignore"])},
                 "rec": rng.choice([1500, 3000]), "disable": rng.choice([0, 5]), "root": rng.choice([10, 40]), "filter": True}
    p = {"objs": objs, "threads": threads, "house": house, "sched": new_sched(rng), "world": rng.randrange(1 << 30), "skip": list(DIRECT_SKIP) if "search" in kinds else []}
    if armed:
        p["intr"] = {"seed": rng.randrange(1 << 40), "armed": armed}
    return p


def run(plan, out):
    img = fresh_image()
    per = []
    with env.world(plan["world"], draw_budget=c06.BUDGET), img.active(), sched.patched_locks():
        fs = env.CUR.fs
        alone = sum(1 for t in plan["threads"] if t) == 1
        for ops in plan["threads"]:
            for op in ops:
                if op["what"] == "func":
                    c26.resolve(img, c26.FUNCS[op["f"]])
        built = [objects.KINDS[o["kind"]].build(img, o["setup"]) for o in plan["objs"]]

        def act(op):
            if op["what"] == "func":
                return c26.perform(img, op, None)
            if op["what"] == "obj":
                o = plan["objs"][op["obj"]]
                K = objects.KINDS[o["kind"]]
                return K.call(K.build(img, o["setup"]) if op["fresh"] else built[op["obj"]], op, o["setup"], img)
            return perform(img, dict(op["s"], rseed=op["rseed"]))

        def do(t, op):
            env.CUR.draws = 0
            np.seterr(**plan["house"].get("err", {}))
            s = op.get("s", {})
            if op.get("device") and alone:
                fs.faults = {fs.ops + k: e for k, e in op["device"]}
                fs.close_fault = errno.EIO if op["closefail"] else 0
            a, so, old = mine(), None, sys.stdout
            if s.get("stdout_fail") and alone:
                sys.stdout = so = env.SimOut(s["stdout_fail"])
            now = so or sys.stdout
            try:
                return act(op)
            finally:
                for k in changed(a, mine()):
                    per.append((op["id"], k))
                if sys.stdout is not now:
                    per.append((op["id"], "stdout"))
                if so:
                    sys.stdout = old
                    if so.fired:
                        out.fault("output stream error")
                fs.faults, fs.close_fault = {}, 0
        stdout = sys.stdout
        furnish(plan["house"])
        before = settings()
        res = engine.run_threads(plan, out, do, budget=6000000)
        fired = engine.fired_ops(out.plan)
        if fired:
            gc.collect()                       # a file whose search was interrupted while it was being opened is closed with the last reference to it
        after = settings()
        bad = changed(before, after) + (["stdout"] if sys.stdout is not stdout else [])
        left = sorted({f.name for f in fs.opened() if not f.closed})
        for op, e in fs.fired:
            out.fault("log device %s error %s" % (op, errno.errorcode[e]))
    desc = {op["id"]: name(plan, op) for ops in plan["threads"] for op in ops}
    ends = {o: ("%s %s" % (desc[o], "was interrupted" if (t, o) in fired else "raised " + r[1] if r[0] == "exc" else "returned")) for (t, o), r in res.items()}
    if per:
        out.bad("%s and left another %s in its thread" % (ends.get(per[0][0]), per[0][1]))
    if bad:
        out.bad("changed for the whole process: %s; after: %s" % (", ".join(bad), "; ".join(ends[o] for o in sorted(ends))))
    if left:
        out.bad("still open: %s; after: %s" % (", ".join(left), "; ".join(ends[o] for o in sorted(ends))))
    for o in sorted(ends):
        out.probe(ends[o])
    if not alone:
        out.fault("overlapping calls")
    restore(before)
    out.nontrivial = True


def furnish(house):
    if house:
        np.set_printoptions(**house["print"])
        sys.setrecursionlimit(house["rec"])
        logging.disable(house["disable"])
        logging.root.setLevel(house["root"])
        warnings.filters.insert(0, ("ignore", None, ImportWarning, None, 7))


def restore(before):
    """the next run in this worker process starts from defaults"""
    np.seterr(**DEFAULTS["err"])
    np.seterrcall(None)
    np.set_printoptions(**DEFAULTS["print"])
    warnings.filters[:] = DEFAULTS["filters"]
    sys.setrecursionlimit(DEFAULTS["rec"])
    logging.disable(logging.NOTSET)
    logging.root.setLevel(DEFAULTS["root"])
    if hasattr(gc, "enable"):
        gc.enable()
    logging.raiseExceptions = DEFAULTS["raise"]
    os.chdir(DEFAULTS["cwd"])
    for s, h in zip(SIGS, DEFAULTS["sig"]):
        if h is not None and signal.getsignal(s) is not h:
            signal.signal(s, h)


DEFAULTS = {"root": logging.root.level, "err": np.geterr(), "print": np.get_printoptions(), "filters": list(warnings.filters), "rec": sys.getrecursionlimit(),
            "raise": logging.raiseExceptions, "cwd": os.getcwd(), "sig": [signal.getsignal(s) for s in SIGS]}


def name(plan, op):
    if op["what"] == "func":
        return c26.FUNCS[op["f"]].name
    if op["what"] == "obj":
        return "%s.%s" % (plan["objs"][op["obj"]]["kind"], objects.describe(op))
    s = op["s"]
    return {"opt": "lat_opt", "hnf": "parallel search" if s.get("par") else "search", "direct": "direct search"}[s["op"]] + (
        " with a log file" if s.get("log") else "")


def shrink(plan, fails):
    return engine.shrink_threads(plan, fails)
