"""Worker process: executes runs on request of check.py (one JSON object per line)."""
import hashlib, importlib, json, os, random, sys, traceback

_out = os.fdopen(os.dup(1), "w")
_null = os.open(os.devnull, os.O_WRONLY)
os.dup2(_null, 1)
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def seed_of(vseed, prop, i):
    return int(hashlib.sha256(("%s/%s/%d" % (vseed, prop, i)).encode()).hexdigest()[:15], 16)


def execute(mod, plan):
    from sim import engine
    out = engine.Outcome()
    mod.run(plan, out)
    return out


def library_failure(e, m):
    """an exception that comes out of the library itself while the workload is set up is the library's doing"""
    from sim import engine, env
    tb = e.__traceback__
    while tb is not None and tb.tb_next is not None:
        tb = tb.tb_next
    if m["cmd"] == "shrink" or not isinstance(e, Exception) or tb is None or not tb.tb_frame.f_code.co_filename.startswith(env.PKGDIR):
        return None
    out = engine.Outcome()
    out.bad("the library raised %s on a supported input: %s (%s:%d)" % (type(e).__name__, str(e)[:200],
            tb.tb_frame.f_code.co_filename[len(env.PKGDIR):], tb.tb_lineno))
    r = out.as_dict()
    r["plan"] = m.get("plan")
    r["trace"] = traceback.format_exc()[-1500:].split("\n")
    return r


def main(prop):
    from sim import env
    mod = importlib.import_module("sim.props." + prop.lower())
    now = env.REAL["mono"]
    for line in sys.stdin:
        m = json.loads(line)
        t0 = now()
        try:
            if m["cmd"] == "run":
                rng = random.Random(seed_of(m["seed"], prop, m["i"]))
                plan = mod.gen(rng, m["tier"], m["i"])
                out = execute(mod, plan)
                r = out.as_dict()
                if out.viol or m.get("want_plan"):
                    r["plan"] = out.plan if out.plan is not None else plan
                    r["trace"] = out.trace
            elif m["cmd"] == "plan":
                out = execute(mod, m["plan"])
                r = out.as_dict()
                r["plan"] = out.plan if out.plan is not None else m["plan"]
                r["trace"] = out.trace
            elif m["cmd"] == "shrink":
                end = now() + m["secs"]
                tries = [0]

                class Stop(Exception):
                    pass

                best = [m["plan"]]

                def fails(p):
                    if now() > end:
                        raise Stop()
                    tries[0] += 1
                    o = execute(mod, p)
                    if o.viol is None:
                        return None
                    best[0] = o.plan if o.plan is not None else p
                    return best[0]
                try:
                    if fails(m["plan"]) is not None:
                        mod.shrink(best[0], fails)
                except Stop:
                    pass
                r = {"plan": best[0], "tries": tries[0]}
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt):
                raise
            r = library_failure(e, m) or {"error": traceback.format_exc()[-3000:]}
        r["i"] = m.get("i")
        r["wall"] = now() - t0
        _out.write(json.dumps(r) + "\n")
        _out.flush()


if __name__ == "__main__":
    main(sys.argv[1])
