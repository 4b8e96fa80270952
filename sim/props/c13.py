"""C13: display level, log, clock, CPU count and log device errors do not change results."""
import errno, logging
from .searches import *
from . import searches


def gen(rng, tier, i):
    img = oracle_image()
    with env.world(0):
        s = GEN[rng.choice(["opt", "opt", "opt", "hnf", "hnf", "par", "direct"])](rng, img)
    if s["op"] == "opt" and rng.random() < 0.4:        # searches that go deeper, and searches that wait for the clock to say stop
        s["miniter"], s["maxiter"] = rng.choice([(0, 3), (0, 3), (1, 3), (0, 4), (2, 3)])
        s["nsol"] = rng.choice([1, 2, 3, 5, 8])
    s["rseed"] = rng.randrange(1 << 30)
    w = {"disp": rng.choice([0, 1, 2, 3, 4]), "clock": rng.choice(["steady", "frozen", "jumpy", "jumpy"]), "cseed": rng.randrange(1 << 30),
         "cpu": rng.choice([1, 2, 3, 8, 64])}
    if s["op"] != "hnf" and rng.random() < 0.8:
        w["log"] = "/simfs/a.log"
        w["loglevel"] = rng.choice([None, logging.INFO, logging.DEBUG, logging.WARNING, logging.CRITICAL])
    w["app"] = rng.choice([None, None, logging.DEBUG, logging.INFO, logging.WARNING])     # application-level logging to a file
    if (w.get("log") or w["app"] is not None) and rng.random() < 0.75:
        n = rng.choice([1, 1, 2, 4, 30, 400])
        m = rng.choice([6, 30, 120])
        first = rng.randrange(1, m)
        if n >= 30:
            ks = range(first, first + n)                      # from some point on the device is full
        else:
            ks = sorted({rng.randrange(1, m) for _ in range(n)})
        w["fs"] = [[k, rng.choice([errno.ENOSPC, errno.EIO, errno.EIO, errno.EBADF])] for k in ks]
    else:
        w["fs"] = []
    w["closefail"] = bool(w.get("log")) and rng.random() < 0.3
    return {"s": s, "w": w}


def run(plan, out):
    s, w = plan["s"], plan["w"]
    want, _ = solo(dict(s, disp=0), clock="frozen")
    img = fresh_image()
    with env.world(s["rseed"], clock=w["clock"], clock_seed=w["cseed"], cpu=w["cpu"], fs_faults=w["fs"], draw_budget=c06.BUDGET), img.active():
        env.CUR.fs.close_fault = errno.EIO if w["closefail"] else 0
        if w["app"] is not None:
            logging.basicConfig(filename="/simfs/app.log", filemode="w", level=w["app"])
        t = dict(s, disp=w["disp"], log=w.get("log"), loglevel=w.get("loglevel"))
        try:
            r = ("ok", perform(img, t))
        except env.SimHang:
            raise
        except Exception as e:
            r = ("exc", "%s: %s" % (type(e).__name__, e))
        for k, e in env.CUR.fs.fired:
            out.fault("log device %s error %s" % (k, errno.errorcode[e]))
        out.fault("clock jump", env.CUR.clock.jumps)
        out.vtime += env.CUR.clock.span
        out.steps += env.CUR.fs.ops
        fired = list(env.CUR.fs.fired)
        files = {n: len(x) for n, x in env.CUR.fs.files.items()}
    got = frozen(r)
    same = same_answer(s, got, want)
    if not same and s.get("par") and s["poolsize"] is None and w["cpu"] != 4 and got[0] == "ok":
        # another pool size, so another completion order: exactly tied solutions may change places
        d = lambda f: [dict(x[1])["d"] for x in f[1][1]]
        same = engine.close(tuple(d(got)), tuple(d(want)), 1e-12)
        out.probe("parallel search with another default pool size")
    if not same:
        out.bad("%s with display level %s, log %s (level %s), clock %s, %d CPUs, %d log device error(s): %s; unobserved: %s" % (
            describe(s), w["disp"], w.get("log"), w.get("loglevel"), w["clock"], w["cpu"], len(fired), short(got), short(want)))
    out.probe(s["op"])
    out.probe("display level %d" % w["disp"])
    if w.get("log"):
        out.probe("log file")
    out.feed((got, sorted(files.items()), fired))
    out.sig = engine.sig_of((s, w))
    out.nontrivial = True


def shrink(plan, fails):
    cur = plan

    def attempt(**k):
        nonlocal cur
        c = copy.deepcopy(cur)
        c["w"].update(k)
        if c != cur and fails(c) is not None:
            cur = c
            return True
    attempt(disp=0)
    attempt(clock="frozen")
    attempt(cpu=4)
    attempt(app=None)
    attempt(closefail=False)
    if not attempt(fs=[]):
        engine.ddmin(cur["w"]["fs"], lambda l: bool(attempt(fs=l)))
    if not attempt(log=None, loglevel=None):
        attempt(loglevel=None)
    return cur
