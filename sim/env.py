"""Seams: everything nondeterministic the library can reach, owned by the simulator.

Nothing in /repo is modified.  structrans is loaded through an importer that compiles
each source file of the working tree once and executes it as often as a fresh
"process image" is needed, so every run (and every simulated worker process) starts
from the module state of a new process.
"""
import builtins, contextlib, errno, importlib, importlib.abc, importlib.util, io, logging, os, random, sys
import threading, time, timeit, warnings, weakref
import multiprocessing

warnings.simplefilter("ignore")
import numpy as np

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
PKG = "structrans"
PKGDIR = os.path.join(REPO, PKG) + os.sep

REAL = dict(time=time.time, perf=time.perf_counter, mono=time.monotonic, sleep=time.sleep,
            Lock=threading.Lock, RLock=threading.RLock, open=builtins.open, stdout=sys.stdout,
            npseed=np.random.seed, default_rng=np.random.default_rng, RandomState=np.random.RandomState)


class SimHang(BaseException):
    """no progress within the simulator's step budget"""


# ----------------------------------------------------------------- module images
_code = {}


class _Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code = _code.get(self.path)
        if code is None:
            with REAL["open"](self.path, "rb") as f:
                src = f.read()
            code = _code[self.path] = compile(src, self.path, "exec", dont_inherit=True)
        t = sys.gettrace()          # importing holds the import lock: no yield points
        sys.settrace(None)
        try:
            exec(code, module.__dict__)
        finally:
            sys.settrace(t)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != PKG and not name.startswith(PKG + "."):
            return None
        base = os.path.join(REPO, *name.split("."))
        init = os.path.join(base, "__init__.py")
        if os.path.isfile(init):
            spec = importlib.util.spec_from_loader(name, _Loader(init), origin=init, is_package=True)
            spec.submodule_search_locations = [base]
            spec.has_location = True
            return spec
        if os.path.isfile(base + ".py"):
            spec = importlib.util.spec_from_loader(name, _Loader(base + ".py"), origin=base + ".py")
            spec.has_location = True
            return spec
        return None


sys.meta_path.insert(0, _Finder())
sys.dont_write_bytecode = True

WANTED = ["structrans", "structrans.crystallography", "structrans.crystallography.lattice",
          "structrans.crystallography.matrix_group", "structrans.crystallography.hnf",
          "structrans.marttrans", "structrans.marttrans.twin", "structrans.marttrans.martensite",
          "structrans.marttrans.lat_cor", "structrans.marttrans.lat_cor.lat_opt",
          "structrans.marttrans.lat_cor.main_hnf", "structrans.marttrans.lat_cor.main_direct"]


def _is_pkg(n):
    return n == PKG or n.startswith(PKG + ".")


def _swap_out():
    mods = {n: sys.modules.pop(n) for n in [n for n in sys.modules if _is_pkg(n)]}
    d = logging.root.manager.loggerDict
    logs = {n: d.pop(n) for n in [n for n in d if _is_pkg(n)]}
    return mods, logs


def _swap_in(state):
    sys.modules.update(state[0])
    logging.root.manager.loggerDict.update(state[1])


class Image:
    """one process's copy of the library's module state"""

    def __init__(self):
        outer = _swap_out()
        self.nested = False
        try:
            for n in WANTED:
                importlib.import_module(n)
            self.state = ({n: m for n, m in sys.modules.items() if _is_pkg(n)},
                          {n: l for n, l in logging.root.manager.loggerDict.items() if _is_pkg(n)})
        finally:
            _swap_out()
            _swap_in(outer)
        self.m = self.state[0]
        S = self.m["structrans"]
        self.S = S
        self.Lattice, self.BravaisLattice = S.Lattice, S.BravaisLattice
        self.Martensite, self.TwinSystem = S.Martensite, S.TwinSystem
        self.TwinPair = self.m["structrans.marttrans.twin"].TwinPair
        G = self.m["structrans.crystallography.matrix_group"]
        self.G = G
        self.MatrixGroup = G.MatrixGroup
        self.lat_cor_hnf = self.m["structrans.marttrans.lat_cor"].lat_cor_hnf
        self.lat_cor_direct = self.m["structrans.marttrans.lat_cor"].lat_cor_direct
        self.lat_opt = self.m["structrans.marttrans.lat_cor.lat_opt"].lat_opt
        self.lat_opt_unpack = self.m["structrans.marttrans.lat_cor.lat_opt"].lat_opt_unpack
        self.reduce_hnfs = self.m["structrans.marttrans.lat_cor.main_hnf"].reduce_hnfs
        self.vec_generator = getattr(self.m["structrans.marttrans.lat_cor.main_direct"], "vec_generator", None)

    @contextlib.contextmanager
    def active(self):
        outer = _swap_out()
        _swap_in(self.state)
        try:
            yield self
        finally:
            # keep what the image imported / registered lazily
            self.state = ({n: m for n, m in sys.modules.items() if _is_pkg(n)},
                          {n: l for n, l in logging.root.manager.loggerDict.items() if _is_pkg(n)})
            _swap_out()
            _swap_in(outer)


# ----------------------------------------------------------------- clock
class Clock:
    """virtual clock; every reading is decided here"""

    def __init__(self, seed=0, mode="steady"):
        self.rng = random.Random(seed)
        self.mode = mode
        self.now = 1.0e9
        self.reads = 0
        self.jumps = 0
        self.span = 0.0

    def read(self):
        self.reads += 1
        if self.mode == "frozen":
            return self.now
        d = 1e-3
        if self.mode == "jumpy" and self.rng.random() < 0.3:
            self.jumps += 1
            d = self.rng.choice([-3600.0, -1.0, 0.0, 5.0, 3600.0, 1e7, -1e7])
        self.now += d
        self.span += abs(d)
        return self.now

    def sleep(self, s):
        self.now += max(0.0, s)
        self.span += max(0.0, s)


# ----------------------------------------------------------------- files and stdout
class SimFile(io.TextIOBase):
    def __init__(self, fs, name, mode):
        self.fs, self.path, self._mode = fs, name, mode
        fs.refs.append(weakref.ref(self))
        self.pending = ""
        if "w" in mode:
            fs.files[name] = ""
        else:
            fs.files.setdefault(name, "")

    name = property(lambda self: self.path)
    mode = property(lambda self: self._mode)

    def writable(self):
        return True

    def write(self, s):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        k = self.fs.fault("write", self.path)
        if k:
            raise OSError(k, os.strerror(k))
        self.pending += s
        return len(s)

    def flush(self):
        if self.closed or not self.pending:
            return
        k = self.fs.fault("flush", self.path)
        if k == errno.ENOSPC:      # data stays in the user-space buffer
            raise OSError(k, os.strerror(k))
        if k == errno.EIO:         # torn write: a prefix reaches the device, the rest is lost
            self.fs.files[self.path] += self.pending[:len(self.pending) // 2]
            self.pending = ""
            raise OSError(k, os.strerror(k))
        if k:
            raise OSError(k, os.strerror(k))
        self.fs.files[self.path] += self.pending
        self.pending = ""

    def close(self):
        if self.closed:
            return
        try:
            self.flush()
            k = self.fs.fault("close", self.path, self.fs.close_fault)
            if k:
                raise OSError(k, os.strerror(k))
        finally:
            io.TextIOBase.close(self)


class SimFS:
    """log device: all paths below /simfs/ live here"""
    PREFIX = "/simfs/"

    def __init__(self, faults=()):
        self.files = {}
        self.ops = 0
        self.faults = {int(i): int(e) for i, e in faults}     # device operation number -> errno
        self.fired = []
        self.refs = []
        self.close_fault = 0          # errno of every close

    def opened(self):
        """files that were opened and still exist"""
        return [f for f in (r() for r in self.refs) if f is not None]

    def fault(self, op, name, always=0):
        self.ops += 1
        e = self.faults.get(self.ops) or always
        if e:
            self.fired.append((op, e))
        return e

    def open(self, name, mode="r", *a, **k):
        return SimFile(self, str(name), mode)


class SimOut(io.TextIOBase):
    """stdout/stderr stand-in"""
    encoding = "utf-8"

    def __init__(self, fail_at=None, err=errno.EPIPE):
        self.buf = []
        self.n = 0
        self.fail_at, self.err, self.fired = fail_at, err, 0

    def writable(self):
        return True

    def write(self, s):
        self.n += 1
        if self.fail_at is not None and self.n == self.fail_at:
            self.fired += 1
            raise OSError(self.err, os.strerror(self.err))
        self.buf.append(s)
        return len(s)

    def flush(self):
        pass

    def text(self):
        return "".join(self.buf)


class _Current:
    clock = Clock()
    fs = SimFS()
    cpu = 4
    draws = 0
    draw_budget = None
    rng_seed = 0
    on_sleep = None
    seeds = 0                     # times the global random generators were reseeded from outside the simulator


CUR = _Current()


def _patch():
    c = lambda: CUR.clock.read()
    time.time = time.perf_counter = time.monotonic = time.process_time = c
    timeit.default_timer = c
    
    def sleep(s=0):
        CUR.clock.sleep(s)
        if CUR.on_sleep is not None:
            CUR.on_sleep(s)
    time.sleep = sleep
    multiprocessing.cpu_count = lambda: CUR.cpu
    os.cpu_count = lambda: CUR.cpu

    def sim_open(name, *a, **k):
        if isinstance(name, (str, os.PathLike)) and str(name).startswith(SimFS.PREFIX):
            return CUR.fs.open(name, *a, **k)
        return REAL["open"](name, *a, **k)
    builtins.open = sim_open
    io.open = sim_open
    logging.open = sim_open

    def counted(f, name):
        def g(*a, **k):
            CUR.draws += 1
            if CUR.draw_budget is not None and CUR.draws > CUR.draw_budget:
                raise SimHang("more than %d random draws" % CUR.draw_budget)
            rs = getattr(_stream, "rs", None)
            if rs is not None:                  # this simulated thread has a random stream of its own
                return getattr(rs, {"ranf": "random_sample", "sample": "random_sample"}.get(name, name))(*a, **k)
            return f(*a, **k)
        g.__name__ = getattr(f, "__name__", "draw")
        return g
    for n in ("rand", "randn", "randint", "random_integers", "random", "random_sample", "ranf", "sample",
              "uniform", "normal", "standard_normal", "choice", "permutation", "shuffle", "exponential"):
        if hasattr(np.random, n):
            setattr(np.random, n, counted(getattr(np.random, n), n))
    def seeded(f):
        def seed(*a, **k):
            CUR.seeds += 1
            return f(*a, **k)
        return seed
    np.random.seed = seeded(np.random.seed)
    np.random.set_state = seeded(np.random.set_state)
    unseeded = lambda: getattr(_stream, "seed", CUR.rng_seed)
    np.random.default_rng = lambda seed=None: REAL["default_rng"](unseeded() if seed is None else seed)

    class RandomState(REAL["RandomState"]):
        def __init__(self, seed=None):
            REAL["RandomState"].__init__(self, unseeded() if seed is None else seed)
    np.random.RandomState = RandomState


_patch()


_stream = threading.local()


def own_stream(seed):
    """from now on the calling (simulated) thread draws from a stream of its own"""
    _stream.seed = seed & 0xFFFFFFFF
    _stream.rs = REAL["RandomState"](_stream.seed)


def reseed(seed):
    CUR.rng_seed = seed & 0xFFFFFFFF
    REAL["npseed"](CUR.rng_seed)
    random.seed(seed)


def reset_logging():
    """logging as in a fresh process"""
    for l in list(logging.root.manager.loggerDict.values()):
        if isinstance(l, logging.Logger):
            l.handlers[:] = []
    _ = [logging.root.manager.loggerDict.pop(n) for n in list(logging.root.manager.loggerDict) if _is_pkg(n)]
    logging.root.handlers[:] = []
    logging.root.setLevel(logging.WARNING)
    logging.disable(logging.NOTSET)
    for r in list(getattr(logging, "_handlerList", [])):
        logging._handlerList.remove(r)
    if logging.lastResort is not None:
        logging._handlerList.append(__import__("weakref").ref(logging.lastResort, logging._removeHandlerRef))


@contextlib.contextmanager
def world(seed, clock="steady", clock_seed=0, cpu=4, fs_faults=(), draw_budget=None, out=None):
    """install a fresh simulated environment for one run"""
    CUR.clock = Clock(clock_seed, clock)
    CUR.fs = SimFS(fs_faults)
    CUR.cpu = cpu
    CUR.draws = 0
    CUR.draw_budget = draw_budget
    CUR.on_sleep = None
    _stream.__dict__.clear()
    reseed(seed)
    reset_logging()
    old = sys.stdout, sys.stderr
    sys.stdout = out if out is not None else SimOut()
    sys.stderr = SimOut()
    try:
        yield CUR
    finally:
        sys.stdout, sys.stderr = old
