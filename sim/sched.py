"""Seeded scheduler for caller threads.

Real threads, but exactly one is ever released; every source line executed in a file of
the library is a yield point (sys.settrace), and the scheduler alone decides who runs next
and where an asynchronous exception lands.
"""
import dis, random, sys, threading
from . import env
from .env import SimHang, REAL

_tls = threading.local()


class SimAbort(BaseException):
    pass


_hot = {}
_STORE = ("STORE_ATTR", "STORE_GLOBAL", "DELETE_ATTR", "DELETE_GLOBAL")
_MUTATE = {"append", "insert", "extend", "update", "clear", "pop", "setdefault", "add", "remove", "popitem", "fill", "sort"}


def hot_lines(code):
    """lines of a function that may store to shared state (an attribute, a global, a container),
    and the lines right after them: where another thread (or an interrupt) can see it half done"""
    h = _hot.get(code)
    if h is None:
        h = set()
        cur, after, reach = None, False, False
        for ins in (dis.get_instructions(code) if code.co_name != "__init__" else ()):
            if ins.starts_line is not None and ins.starts_line != cur:
                cur = ins.starts_line
                reach = False
                if after:
                    h.add(cur)
                    after = False
            o = ins.opname
            if o in ("LOAD_GLOBAL", "LOAD_ATTR", "LOAD_DEREF", "LOAD_NAME"):
                reach = True
            if o in _STORE or (o in ("STORE_SUBSCR", "DELETE_SUBSCR") and reach) or (
                    o in ("LOAD_METHOD", "LOOKUP_METHOD", "LOAD_ATTR") and ins.argval in _MUTATE):
                h.add(cur)
                after = True
        _hot[code] = h
    return h


class Focus:
    """swarm: in some runs only a random part of the library's functions is disturbed, but that part more often"""

    def __init__(self, rng, p_on):
        self.on = rng.random() < p_on
        self.seed = rng.randrange(1 << 40)
        self.share = rng.choice([0.1, 0.25, 0.5])
        self.memo = {}

    def __call__(self, fn):
        """may a line of this function (file, name) be disturbed"""
        if not self.on:
            return True
        r = self.memo.get(fn)
        if r is None:
            r = self.memo[fn] = random.Random("%d/%s" % (self.seed, fn)).random() < self.share
        return r


class RandomChooser:
    """policy drawn per run (swarm): priority-based (PCT-like) or random walk, both biased
    towards lines a thread reaches for the first time and lines next to stores to shared
    state, so that one-line windows are hit"""

    def __init__(self, rng):
        self.rng = rng
        self.mode = rng.choice(["pct", "pct", "walk"])
        self.p_new = rng.choice([0.0, 0.004, 0.01, 0.03, 0.1, 0.3])
        self.p_rep = rng.choice([0.0, 0.0, 0.0003, 0.002, 0.01, 0.05]) if self.p_new > 0.005 else 0.0
        self.p_hot = max(self.p_new, rng.choice([0.02, 0.1, 0.3, 0.7]))
        self.focus = Focus(rng, 0.5)
        self.seen = {}
        self.prio = {}
        self.low = 0

    def start(self, tids):
        order = list(tids)
        self.rng.shuffle(order)
        self.prio = {t: len(order) - i for i, t in enumerate(order)}
        return order[0]

    def pick(self, runnable):
        return max(runnable, key=lambda t: self.prio[t])

    def at(self, tid, op, k, site, runnable, hot=False, fn=None):
        if not self.focus(fn):
            return None
        n = self.seen.get((tid, site), 0)
        self.seen[(tid, site)] = n + 1
        p = (self.p_hot if hot and n < 3 else self.p_new) if n == 0 or hot else self.p_rep
        if len(runnable) < 2 or self.rng.random() >= p:
            return None
        if self.mode == "walk":
            return self.rng.choice([t for t in runnable if t != tid])
        self.low -= 1
        self.prio[tid] = self.low
        return self.pick(runnable)

    def finished(self, tid, runnable):
        return self.pick(runnable) if self.mode == "pct" else self.rng.choice(sorted(runnable))

    def yielded(self, tid, runnable):
        """the thread waits or polls in vain: others first"""
        self.low -= 1
        self.prio[tid] = self.low
        return self.finished(tid, runnable)


class ListChooser:
    """replays recorded decisions: {(tid, op, k): next tid}, plus start and finish orders"""

    def __init__(self, rec):
        self.sw = {(a, b, c): d for a, b, c, d in rec.get("switch", [])}
        self.first = rec.get("first")
        self.yl = list(rec.get("yield", []))
        self.fin = {a: b for a, b in rec.get("finish", [])}

    def start(self, tids):
        return self.first if self.first in tids else min(tids)

    def at(self, tid, op, k, site, runnable, hot=False, fn=None):
        n = self.sw.get((tid, op, k))
        return n if n is not None and n in runnable and n != tid else None

    def finished(self, tid, runnable):
        n = self.fin.get(tid)
        return n if n in runnable else min(runnable)

    def pick(self, runnable):
        return min(runnable)

    def yielded(self, tid, runnable):
        n = self.yl.pop(0) if self.yl else None
        return n if n in runnable else min(runnable)


class Sched:
    def __init__(self, chooser, intr=None, budget=3000000):
        """intr: object with .at(tid, op, k, site) -> exception class or None"""
        self.ch, self.intr, self.budget = chooser, intr, budget
        self.steps = 0
        self.k = {}
        self.op = {}
        self.rec = {"switch": [], "finish": [], "yield": [], "first": None}
        self.trail = []
        self.abort = None
        self.blocked = {}
        self.harness_error = None
        self.tracing = True
        self.skip = ()               # library files (path suffixes) or function names whose lines are no yield points

    # -- called by workloads, from inside a simulated thread
    def begin_op(self, tid, i):
        self.op[tid] = i
        self.k[tid] = 0
        if self.tracing:
            sys.settrace(self._tracer(tid))

    def end_op(self, tid):
        sys.settrace(None)

    def call(self, tid, i, f):
        """run one operation; returns ('ok', value) or ('exc', type name, text)"""
        self.begin_op(tid, i)
        try:
            try:
                r = f()
            finally:
                sys.settrace(None)
        except (SimAbort, SimHang):
            raise
        except BaseException as e:
            return ("exc", type(e).__name__, str(e)[:200])
        return ("ok", r)

    def _tracer(self, tid):
        pd = env.PKGDIR
        point = self._point

        def local(frame, ev, arg):
            if ev == "line":
                c = frame.f_code
                f = c.co_filename[len(pd):]
                point(tid, (f, frame.f_lineno), frame.f_lineno in hot_lines(c), f + ":" + c.co_name)
            return local

        skip = self.skip

        def glob(frame, ev, arg):
            f = frame.f_code.co_filename
            if f.startswith(pd) and not (skip and (f.endswith(skip) or frame.f_code.co_name in skip)):
                return local
            return None
        return glob

    def _point(self, tid, site, hot=False, fn=None):
        if self.abort is not None:
            raise SimAbort()
        self.steps += 1
        if self.steps > self.budget:
            self.abort = "step budget of %d lines exhausted at %s:%d" % (self.budget, site[0], site[1])
            raise SimHang(self.abort)
        op = self.op[tid]
        k = self.k[tid] = self.k[tid] + 1
        if self.intr is not None:
            exc = self.intr.at(tid, op, k, site, hot, fn)
            if exc is not None:
                self.trail.append((tid, op, k, "raise " + exc.__name__, site))
                raise exc("injected at %s:%d" % site)
        if len(self.alive) > 1:
            run = [t for t in self.alive if t not in self.blocked]
            n = self.ch.at(tid, op, k, site, run, hot, fn)
            if n is not None and n != tid:
                self.rec["switch"].append([tid, op, k, n])
                self.trail.append((tid, op, k, n, site))
                self._switch(tid, n)

    def _switch(self, tid, n):
        self.go[n].release()
        self.go[tid].acquire()
        if self.abort is not None:
            raise SimAbort()

    # -- cooperative blocking (locks inside the library)
    def block(self, tid, on):
        self.blocked[tid] = on
        run = [t for t in self.alive if t not in self.blocked]
        if not run:
            self.abort = "deadlock: every thread waits for a lock"
            self.blocked.clear()
            raise SimHang(self.abort)
        self._yield(tid, run, "lock")

    def _yield(self, tid, run, why):
        n = self.ch.yielded(tid, run)
        self.rec["yield"].append(n)
        self.trail.append((tid, self.op.get(tid), self.k.get(tid), n, (why, 0)))
        self._switch(tid, n)

    def give_way(self, tid):
        """the thread polls in vain: some other thread runs, if there is one"""
        run = [t for t in self.alive if t not in self.blocked and t != tid]
        self.steps += 1
        if self.steps > self.budget or not run:
            self.abort = "waiting for a task that nobody works on" if not run else "step budget of %d lines exhausted while polling" % self.budget
            raise SimHang(self.abort)
        self._yield(tid, run, "poll")

    def unblock(self, on):
        for t in [t for t, o in self.blocked.items() if o is on]:
            del self.blocked[t]

    # -- driver
    def run(self, bodies):
        """bodies: {tid: callable}"""
        tids = sorted(bodies)
        self.alive = list(tids)
        self.go = {t: REAL["Lock"]() for t in tids}
        for t in tids:
            self.go[t].acquire()
        done = REAL["Lock"]()
        done.acquire()
        errors = []

        def main(t):
            self.go[t].acquire()
            _tls.tid = t
            _tls.sched = self
            try:
                if self.abort is None:
                    bodies[t]()
            except (SimAbort, SimHang):
                pass
            except BaseException as e:     # harness error, not the library's
                import traceback
                errors.append(traceback.format_exc())
                self.abort = self.abort or "harness error"
            finally:
                sys.settrace(None)
                _tls.sched = None
                self.alive.remove(t)
                self.blocked.pop(t, None)
                if self.alive:
                    run = [x for x in self.alive if x not in self.blocked]
                    if not run:
                        self.abort = self.abort or "deadlock: every thread waits for a lock"
                        self.blocked.clear()
                        run = list(self.alive)
                    n = self.ch.finished(t, run)
                    self.rec["finish"].append([t, n])
                    self.go[n].release()
                else:
                    done.release()
        ths = [threading.Thread(target=main, args=(t,), daemon=True) for t in tids]
        for th in ths:
            th.start()
        first = self.ch.start(tids)
        self.rec["first"] = first
        self.go[first].release()
        done.acquire()
        for th in ths:
            th.join()
        if errors:
            raise RuntimeError("harness error in simulated thread:\n" + errors[0])
        return self


class SimLock:
    """threading.Lock / RLock for code under simulation"""

    def __init__(self, re=False):
        self.owner, self.n, self.re = None, 0, re
        self.real = REAL["RLock"]() if re else REAL["Lock"]()

    def _me(self):
        s = getattr(_tls, "sched", None)
        return (s, _tls.tid) if s is not None else (None, None)

    def acquire(self, blocking=True, timeout=-1):
        s, me = self._me()
        if s is None:
            return self.real.acquire(blocking, timeout)
        while self.owner is not None and not (self.re and self.owner == me):
            if not blocking:
                return False
            s.block(me, self)
        self.owner, self.n = me, self.n + 1
        return True

    def release(self):
        s, me = self._me()
        if s is None:
            return self.real.release()
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.n -= 1
        if self.n == 0:
            self.owner = None
            s.unblock(self)

    def __reduce_ex__(self, protocol):
        raise TypeError("cannot pickle '_thread.%s' object" % ("RLock" if self.re else "lock"))

    def locked(self):
        return self.owner is not None or (not self.re and self.real.locked())

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class patched_locks:
    """threading.Lock/RLock seen by the library while an image is loaded and run"""

    def __enter__(self):
        threading.Lock = lambda: SimLock()
        threading.RLock = lambda: SimLock(True)

    def __exit__(self, *a):
        threading.Lock, threading.RLock = REAL["Lock"], REAL["RLock"]


class RandomIntr:
    """asynchronous exceptions; armed for some operations, fires at a biased random line"""

    def __init__(self, rng, armed):
        self.rng, self.armed = rng, dict(armed)      # (tid, op) -> kind
        self.p_new = rng.choice([0.005, 0.01, 0.03, 0.1])
        self.p_rep = rng.choice([0.0, 0.0005, 0.002])
        self.p_hot = max(self.p_new, rng.choice([0.05, 0.3]))
        self.focus = Focus(rng, 0.6)
        self.seen = {}
        self.fired = []

    def at(self, tid, op, k, site, hot=False, fn=None):
        kind = self.armed.get((tid, op))
        if kind is None or not self.focus(fn):
            return None
        n = self.seen.get((tid, op, site), 0)
        self.seen[(tid, op, site)] = n + 1
        if self.rng.random() < (self.p_hot if hot and n < 3 else self.p_new if n == 0 else self.p_rep):
            del self.armed[(tid, op)]
            self.fired.append([tid, op, k, kind])
            return KINDS[kind]
        return None


class ListIntr:
    def __init__(self, lst):
        self.at_ = {(a, b, c): d for a, b, c, d in lst}
        self.fired = []

    def at(self, tid, op, k, site, hot=False, fn=None):
        kind = self.at_.get((tid, op, k))
        if kind is None:
            return None
        self.fired.append([tid, op, k, kind])
        return KINDS[kind]


KINDS = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}
