"""Runs one plan: caller threads with operations, under the scheduler and the simulated world."""
import copy, hashlib, json, random, re
import numpy as np
from . import env, sched


_ADDRESS = re.compile(r"0x[0-9a-fA-F]{6,}|(?<![\d.e+-])\d{12,}(?![\d.])")


def mask(text):
    """addresses and thread identifiers are not part of an outcome: they differ from process to process"""
    return _ADDRESS.sub("#", text)


class Outcome:
    def __init__(self):
        self.viol = None          # first violation, text
        self.faults = {}
        self.vtime = 0.0
        self.steps = 0
        self.sig = ""             # interleaving / schedule signature
        self.nontrivial = False
        self.probes = {}
        self.plan = None          # plan with every decision explicit
        self.trace = []
        self.h = hashlib.sha256()

    def bad(self, msg):
        if self.viol is None:
            self.viol = mask(msg)

    def fault(self, k, n=1):
        if n:
            self.faults[k] = self.faults.get(k, 0) + n

    def probe(self, k, n=1):
        self.probes[k] = self.probes.get(k, 0) + n

    def feed(self, x):
        self.h.update(mask(repr(x)).encode())

    def as_dict(self):
        return dict(viol=self.viol, faults=self.faults, vtime=round(self.vtime, 6), steps=self.steps, sig=self.sig,
                    nontrivial=self.nontrivial, probes=self.probes, digest=self.h.hexdigest()[:24])


def sig_of(x):
    return hashlib.sha256(repr(x).encode()).hexdigest()[:16]


def freeze(v):
    """deep snapshot of a return value, comparable and hashable by repr"""
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ("objarray", tuple(freeze(x) for x in v))
        return ("array", v.dtype.kind, v.shape, tuple((v + 0).ravel().tolist()))
    if isinstance(v, (np.integer,)):
        return int(v)
    if isinstance(v, (np.floating,)):
        return float(v)
    if isinstance(v, np.bool_):
        return bool(v)
    if isinstance(v, dict):
        return ("dict", tuple(sorted((str(k), freeze(x)) for k, x in v.items())))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(freeze(x) for x in v))
    if isinstance(v, (int, float, str, bool, type(None), bytes)):
        return v
    if hasattr(v, "matrices") and hasattr(v, "order"):
        return ("group", tuple(freeze(np.array(m, float)) for m in v.matrices()))
    return ("object", type(v).__name__)


def close(a, b, tol=1e-9):
    """compare two frozen values with a float tolerance"""
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b or a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a != a or b != b:
            return a != a and b != b
        if a == b:
            return True
        return abs(a - b) <= tol * (1 + abs(a) + abs(b))
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        if a and a[0] == "array" and b[0] == "array":
            return a[2] == b[2] and close(a[3], b[3], tol)
        return all(close(x, y, tol) for x, y in zip(a, b))
    return a == b


def run_threads(plan, out, do, budget=3000000, intr=None):
    """do(tid, op) -> value.  Returns {(tid, op id): ('ok', value) | ('exc', type, text)}"""
    s = plan["sched"]
    ch = sched.ListChooser(s["rec"]) if "rec" in s else sched.RandomChooser(random.Random(s["seed"]))
    it = plan.get("intr")
    own = intr                      # a workload's own hook at every line, in place of interrupts
    if own is not None or it is None:
        pass
    elif "list" in it:
        intr = sched.ListIntr(it["list"])
    else:
        intr = sched.RandomIntr(random.Random(it["seed"]), {(t, o): k for t, o, k in it["armed"]})
    S = sched.Sched(ch, intr, budget)
    S.tracing = intr is not None or sum(1 for t in plan["threads"] if t) > 1      # alone and uninterrupted: no yield points
    S.skip = tuple(plan.get("skip", ()))
    res = {}

    def body(t, ops):
        def f():
            for op in ops:
                res[(t, op["id"])] = S.call(t, op["id"], lambda: do(t, op))
        return f
    S.run({t: body(t, ops) for t, ops in enumerate(plan["threads"])})
    out.steps += S.steps
    out.sig = sig_of(([(a, b, c, d, e) for a, b, c, d, e in S.trail], s.get("tag")))
    out.trace = ["T%d op%s line#%d %s:%d -> %s" % (a, b, c, e[0], e[1], ("T%d" % d) if isinstance(d, int) else d)
                 for a, b, c, d, e in S.trail][:400]
    out.feed(S.trail)
    out.fault("preemption", len(S.rec["switch"]))
    if own is None and intr is not None:
        for _, _, _, k in intr.fired:
            out.fault("interrupt:" + k)
    p = copy.deepcopy(plan)
    p["sched"] = {"rec": S.rec}
    if own is None and intr is not None:
        p["intr"] = {"list": intr.fired}
    out.plan = p
    if S.abort:
        out.bad("no progress: " + S.abort)
    out.feed(sorted((k, v[0], freeze(v[1])) for k, v in res.items()))
    out.S = S
    return res


def fired_ops(plan_explicit):
    it = plan_explicit.get("intr") or {}
    return {(t, o) for t, o, k, kind in it.get("list", [])}


# ------------------------------------------------------------------ minimisation
def ddmin(items, test):
    """smallest sublist (greedy) for which test(sublist) holds"""
    n = 2
    items = list(items)
    while len(items) >= 1:
        size = max(1, len(items) // n)
        hit = False
        i = 0
        while i < len(items):
            cand = items[:i] + items[i + size:]
            if test(cand):
                items = cand
                hit = True
            else:
                i += size
        if not hit:
            if size == 1:
                break
            n = min(len(items), n * 2)
    return items


def shrink_threads(plan, fails):
    """generic shrinker for thread plans; fails(plan) -> explicit plan if it still violates, else None"""
    cur = plan

    def attempt(c):
        nonlocal cur
        r = fails(c)
        if r is not None:
            cur = r if "rec" in r.get("sched", {}) else c
            return True
        return False
    # threads to empty
    for t in range(len(cur["threads"])):
        if cur["threads"][t]:
            c = copy.deepcopy(cur)
            c["threads"][t] = []
            attempt(c)
    for t in range(len(cur["threads"])):
        def test(ops, t=t):
            c = copy.deepcopy(cur)
            c["threads"][t] = ops
            return attempt(c)
        ddmin(cur["threads"][t], test)
    if cur.get("intr", {}).get("list"):
        def testi(l):
            c = copy.deepcopy(cur)
            c["intr"]["list"] = l
            return attempt(c)
        ddmin(cur["intr"]["list"], testi)

    def tests(l):
        c = copy.deepcopy(cur)
        c["sched"]["rec"]["switch"] = l
        return attempt(c)
    if "rec" in cur["sched"]:
        ddmin(cur["sched"]["rec"]["switch"], tests)
    return cur
