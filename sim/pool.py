"""Discrete-event simulation of an asynchronous worker pool.

Virtual time; a seeded generator decides every latency, stall and fault.  A worker is a
separate process image (its own copy of the library's module state); task arguments cross
the boundary by pickling, early (at submission) or late (when a worker takes the task, as
multiprocessing's feeder thread does).  Workers either run the library's own
lat_opt_unpack ("real") or a stub that reports seeded solutions with true distances.
"""
import pickle, random
from . import env
from .env import SimHang


class WorkerFailure(Exception):
    """raised inside a simulated worker"""


class BrokenPool(RuntimeError):
    """the pool itself died"""


class SubmitRefused(OSError):
    """the pool refused a task"""


EXC = {"WorkerFailure": lambda: WorkerFailure("injected"), "ValueError": lambda: ValueError("injected"),
       "MemoryError": lambda: MemoryError("injected"), "KeyError": lambda: KeyError("injected"),
       "IndexError": lambda: IndexError("injected"), "TypeError": lambda: TypeError("injected"),
       "TimeoutError": lambda: TimeoutError("injected"), "EOFError": lambda: EOFError("injected"),
       "AttributeError": lambda: AttributeError("injected"), "OSError": lambda: OSError(5, "injected"),
       "BrokenPool": lambda: BrokenPool("injected"), "SubmitRefused": lambda: SubmitRefused(11, "injected")}


class Task:
    pass


class AsyncResult:
    def __init__(self, pool, task):
        self._p, self._t = pool, task

    def ready(self):
        p, t = self._p, self._t
        p.poll(t)
        return t.finish is not None and t.finish <= p.now

    def wait(self, timeout=None):
        p, t = self._p, self._t
        p.poll(t)
        end = None if timeout is None else p.now + max(0.0, timeout)
        p.advance_until(lambda: p.is_done(t), end)

    def get(self, timeout=None):
        p, t = self._p, self._t
        self.wait(timeout)
        if not p.is_done(t):
            import multiprocessing
            raise multiprocessing.TimeoutError()
        if not t.collected:
            t.collected = True
            p.collected.append(t.ih)
            p.outstanding -= 1
            p.log.append(("get", t.ih))
        if t.exc is not None:
            p.raised.append(t.exc)
            raise t.exc
        return t.result

    result = get

    def done(self):
        return self.ready()

    def successful(self):
        if not self._p.is_done(self._t):
            raise ValueError("not ready")
        return self._t.exc is None


class SimPool:
    """spec: {"seed", "workers", "lat": latency profile, "late": bool, "faults": {submission number: kind},
              "refuse": submission number or None, "tick": poll cost}"""

    PROFILES = ("equal", "uniform", "heavy", "reverse", "stall", "instant", "burst")

    def __init__(self, spec, work):
        """work(ih, args) -> result of one task; args already unpickled in the worker"""
        self.spec = spec
        self.work = work
        self.rng = random.Random(spec["seed"])
        self.now = 0.0
        self.n = 0
        self.running = []
        self.queue = []
        self.free = list(range(spec["workers"]))
        self.tasks = []
        self.submitted = []
        self.collected = []
        self.outstanding = 0
        self.max_outstanding = 0
        self.polls = 0
        self.polls_after = 0
        self.raised = []
        self.log = []
        self.fired = []
        self.budget = spec.get("budget", 200000)
        env.CUR.on_sleep = self.sleep

    # -- virtual time
    def latency(self, i):
        r, k = self.rng, self.spec["lat"]
        if k == "instant":
            return 0.0
        if k == "equal":
            return 5.0
        if k == "uniform":
            return r.uniform(0.1, 20.0)
        if k == "heavy":
            return 0.5 * (r.random() + 1e-9) ** -1.5
        if k == "reverse":
            return 40.0 / (1 + i)
        if k == "burst":
            return r.choice([0.0, 0.0, 30.0])
        return 200.0 if r.random() < 0.3 else r.uniform(0.1, 3.0)     # stall

    def poll(self, t):
        self.polls += 1
        if self.polls > self.budget:
            raise SimHang("%d polls without the search finishing" % self.budget)
        if self.all_done():
            self.polls_after += 1
        self.log.append(("poll", t.ih))
        self.advance(self.now + self.spec.get("tick", 1.0))

    def sleep(self, s):
        self.polls += 1
        if self.polls > self.budget:
            raise SimHang("%d polls without the search finishing" % self.budget)
        self.advance(self.now + max(float(s), 1e-6))

    def all_done(self):
        return not self.queue and all(t.finish <= self.now for t in self.running)

    def is_done(self, t):
        return t.finish is not None and t.finish <= self.now

    def advance(self, to):
        """process completions and starts up to virtual time `to`"""
        while True:
            nxt = min((t.finish for t in self.running if t.finish > self.now), default=None)
            self._start()
            nxt = min((t.finish for t in self.running if t.finish > self.now), default=None)
            if nxt is None or nxt > to:
                break
            self.now = nxt
            self._reap()
        self.now = max(self.now, to)
        self._reap()
        self._start()

    def advance_until(self, cond, end=None):
        self._start()
        while not cond():
            nxt = min((t.finish for t in self.running if t.finish > self.now), default=None)
            if nxt is None:
                if not self.queue:
                    raise SimHang("waiting for a task that is not running")
                self._reap()
                self._start()
                continue
            if end is not None and nxt > end:
                self.advance(end)
                return
            self.advance(nxt)

    def _reap(self):
        for t in [t for t in self.running if t.finish <= self.now]:
            self.running.remove(t)
            self.free.append(t.worker)
            self.free.sort()

    def _start(self):
        while self.queue and self.free:
            t = self.queue.pop(0)
            t.worker = self.free.pop(0)
            t.finish = self.now + t.latency
            self.running.append(t)
            if t.blob is None:
                t.blob = pickle.dumps(t.live, -1)
            t.live = None
            self.log.append(("start", t.ih))
            self._compute(t)
            if t.latency == 0.0:
                self._reap()

    def _compute(self, t):
        kind = self.spec.get("faults", {}).get(str(t.no))
        if kind:
            self.fired.append(kind)
            t.exc = EXC[kind]()
            return
        args = pickle.loads(t.blob)
        t.args = args
        try:
            t.result = pickle.loads(pickle.dumps(self.work(t, args), -1))
        except SimHang:
            raise
        except Exception as e:      # a real worker hands its exception to get()
            t.exc = e

    # -- the function handed to the library as lat_opt_par
    def submit(self, arglist):
        if self.spec.get("refuse") is not None and self.n == self.spec["refuse"]:
            self.n += 1
            self.fired.append("refuse:" + self.spec.get("refuse_kind", "SubmitRefused"))
            e = EXC[self.spec.get("refuse_kind", "SubmitRefused")]()
            self.raised.append(e)
            raise e
        t = Task()
        arg, = arglist
        t.no, t.live, t.result, t.exc, t.finish, t.collected, t.worker = self.n, arg, None, None, None, False, None
        t.ih = arg[3]
        t.blob = None if self.spec.get("late") else pickle.dumps(arg, -1)
        t.latency = self.latency(self.n)
        self.n += 1
        self.tasks.append(t)
        self.submitted.append(t.ih)
        self.outstanding += 1
        self.max_outstanding = max(self.max_outstanding, self.outstanding)
        self.log.append(("submit", t.ih))
        self.queue.append(t)
        self._start()
        return AsyncResult(self, t)

    def completion_order(self):
        d = [t for t in self.tasks if t.finish is not None]
        return [t.no for t in sorted(d, key=lambda t: (t.finish, t.no))]


def gen_spec(rng, ntasks_hint=8):
    return {"seed": rng.randrange(1 << 30), "workers": rng.choice([1, 2, 3, 4, 8]),
            "lat": rng.choice(SimPool.PROFILES), "late": rng.random() < 0.5,
            "tick": rng.choice([1.0, 1.0, 0.25, 7.0]), "faults": {}, "refuse": None}


class ThreadResult:
    def __init__(self, pool, no, arg):
        self._p, self.no, self.arg, self.done_, self.value, self.exc = pool, no, arg, False, None, None

    def ready(self):
        if not self.done_:
            self._p.S().give_way(self._p.me())
        return self.done_

    done = ready

    def wait(self, timeout=None):
        while not self.done_:
            if timeout is not None:
                self._p.S().give_way(self._p.me())
                return
            self._p.S().block(self._p.me(), self)

    def get(self, timeout=None):
        self.wait(timeout)
        if not self.done_:
            import multiprocessing
            raise multiprocessing.TimeoutError()
        if self.exc is not None:
            raise self.exc
        return self.value

    result = get

    def successful(self):
        if not self.done_:
            raise ValueError("not ready")
        return self.exc is None


class ThreadPool:
    """a pool of simulated threads in the caller's own process: nothing is pickled, arguments and results are shared"""

    def __init__(self, users):
        self.queue, self.tasks, self.users = [], [], users
        env.CUR.on_sleep = lambda s: self.S() and self.S().give_way(self.me())

    @staticmethod
    def S():
        from . import sched
        return getattr(sched._tls, "sched", None)

    @staticmethod
    def me():
        from . import sched
        return sched._tls.tid

    def submit(self, arglist):
        arg, = arglist
        t = ThreadResult(self, len(self.tasks), arg)
        self.tasks.append(t)
        self.queue.append(t)
        self.S().unblock(self)
        return t

    def leave(self):
        """a search that used the pool has ended"""
        self.users -= 1
        if self.users == 0:
            self.S().unblock(self)

    def work(self, f):
        n = 0
        while True:
            while not self.queue:
                if self.users <= 0:
                    return n
                self.S().block(self.me(), self)
            t = self.queue.pop(0)
            n += 1
            try:
                t.value = f(t.arg)
            except Exception as e:
                t.exc = e
            t.done_ = True
            self.S().unblock(t)
