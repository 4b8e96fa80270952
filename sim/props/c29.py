"""C29: what searches display, one after another, at the same time, after aborted ones, whatever is logged."""
import errno, io, sys
from .searches import *
from . import searches
from .c14 import difference


# texts a display may break at: the announcement, the messages and the report of a search
PLACES = ("HNF", "Merging", "olution", "dist = ", "Finally", "solution(s) found", "All done", "Search")


class Tagged(io.TextIOBase):
    """the display of the process; remembers which thread and operation wrote what"""
    encoding = "utf-8"

    def __init__(self):
        self.text, self.lines, self.now = {}, [], {}
        self.fail, self.fired, self.n = {}, set(), {}

    def who(self):
        s = getattr(sched._tls, "sched", None)
        return self.now.get(sched._tls.tid) if s is not None else None

    def writable(self):
        return True

    def write(self, s):
        k = self.who()
        n = self.n[k] = self.n.get(k, 0) + 1
        f = self.fail.get(k)
        if f is not None and (f == n if isinstance(f, int) else f in s):
            self.fired.add(k)
            raise OSError(errno.EPIPE, "injected")
        self.text[k] = self.text.get(k, "") + s
        return len(s)

    def flush(self):
        pass


def gen(rng, tier, i):
    img = oracle_image()
    with env.world(0):
        x = rng.random()
        nt = rng.choice([1, 1, 2, 2, 3])
        if x < 0.06:
            kinds, nt, total = ["direct", "opt"], 1, 2
        elif nt == 1:
            kinds, total = ["opt", "opt", "hnf", "par"], rng.choice([2, 3, 4])
        else:
            kinds, total = ["opt", "opt", "opt", "hnf"], rng.choice([2, 3, 4])
        threads, armed, pool = [[] for _ in range(nt)], [], []
        for n in range(total):
            t = n % nt if n < nt else rng.randrange(nt)
            if pool and rng.random() < 0.4:
                s = copy.deepcopy(rng.choice(pool))
            else:
                s = GEN[kinds[0] if n == 0 else rng.choice(kinds)](rng, img)
            if s["op"] in ("hnf", "opt"):
                # shallow: what is displayed is judged, not how good the answer is
                s["miniter"], s["maxiter"] = rng.choice([(0, 0), (0, 0), (0, 1), (0, 2), (1, 1)])
                if s["op"] == "opt" and s["ihnf"] is not None:
                    s["ihnf"] = rng.randrange(3)
                if rng.random() < 0.25:
                    s["nsol"] = rng.choice([4, 6, 8])
            pool.append(copy.deepcopy(s))
            s["disp"] = rng.choice([0, 1, 1, 2, 2, 3, 4])
            if s["op"] != "hnf" and rng.random() < 0.4:
                s["log"] = "/simfs/%d.log" % t
                s["loglevel"] = rng.choice([None, 10, 20, 50])
            s.update(id=n, rseed=rng.randrange(1 << 30))
            # most histories begin with a search that is cut short
            x = rng.random() if n == 0 or rng.random() < 0.4 else 1
            if x < 0.4 and s.get("par"):
                s["par"]["faults"] = {str(rng.choice([0, 0, 1])): "ValueError"}
            elif x < 0.35 and kinds[0] != "direct":
                armed.append([t, n, rng.choice(["KeyboardInterrupt", "MemoryError"])])
            elif x < 0.7 and s["disp"]:
                s["stdout_fail"] = rng.choice([rng.randrange(1, 8), rng.randrange(1, 60), rng.choice(PLACES), rng.choice(PLACES)])
            threads[t].append(s)
    p = {"threads": threads, "sched": new_sched(rng), "world": rng.randrange(1 << 30),
         "fs": [[k, errno.EIO] for k in range(1, rng.choice([3, 30]))] if rng.random() < 0.2 else []}
    if armed:
        p["intr"] = {"seed": rng.randrange(1 << 40), "armed": armed}
    if kinds[0] == "direct":
        p["skip"] = list(DIRECT_SKIP)
    return p


def solo_text(s):
    img = fresh_image()
    o = env.SimOut()
    with env.world(s["rseed"], clock="frozen", out=o), img.active():
        try:
            perform(img, {k: v for k, v in s.items() if k not in ("stdout_fail", "log", "loglevel")})
        except Exception:
            return None
    return o.text()


def run(plan, out):
    img = fresh_image()
    scr = Tagged()
    with env.world(plan["world"], clock="frozen", fs_faults=plan["fs"], draw_budget=c06.BUDGET, out=scr), img.active(), sched.patched_locks():
        def do(t, s):
            env.CUR.draws = 0
            scr.now[t] = s["id"]
            if s.get("stdout_fail"):
                scr.fail[s["id"]] = s["stdout_fail"]
            try:
                return perform(img, s)
            finally:
                scr.now[t] = None
        res = engine.run_threads(plan, out, do, budget=6000000)
        for op, e in env.CUR.fs.fired:
            out.fault("log device %s error %s" % (op, errno.errorcode[e]))
    fired = {o for _, o in engine.fired_ops(out.plan)}
    if scr.fired:
        out.fault("output stream error", len(scr.fired))
    if scr.text.get(None):
        out.bad("displayed outside of any search: %r" % scr.text[None][:80])
    n = 0
    for t, ops in enumerate(plan["threads"]):
        for s in ops:
            r = res.get((t, s["id"]))
            if r is None:
                continue
            got = scr.text.get(s["id"], "")
            n += 1
            out.feed(got)
            if s["disp"] <= 0 and got:
                out.bad("%s at display level 0 displays %r" % (describe(s), got[:80]))
            if s["id"] in fired or s["id"] in scr.fired or r[0] != "ok":
                out.probe("aborted")
                continue
            want = solo_text(s)
            if want is None:
                continue
            out.probe("%s, level %d" % (s["op"], s["disp"]))
            if got != want:
                out.bad("%s at display level %d: %s" % (describe(s), s["disp"], difference(got, want)))
            elif s["disp"] > 0:
                q = missing(s, r[1], got)
                if q:
                    out.bad("%s at display level %d: %s" % (describe(s), s["disp"], q))
    out.nontrivial = n > 1


def missing(s, sols, text):
    """the report shows the distance of every solution"""
    if s["op"] == "opt":
        return None
    for x in set("%g" % y["d"] for y in sols):
        n = sum(1 for y in sols if "%g" % y["d"] == x)
        k = len(re.findall(r"(?<![\w.])%s(?![\w.])" % re.escape(x), text))
        if k < n:
            return "the distance %s of a solution is not displayed" % x
    return None


def shrink(plan, fails):
    return engine.shrink_threads(plan, fails)
