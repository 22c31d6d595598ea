"""Shared by the properties that watch whole nested sampling runs."""
import math, random
import numpy as np
from . import nsw, obs, rngseam, sched

HOTFILES = ["PhantomCollection.py", "WalkerList.py", "Explorer.py", "Engine.py"]


def gen_sched(rng, budget=60_000_000):
    """swarm: few or many switches, anywhere or at the places where shared state is touched"""
    style = rng.choice(("hot", "hot", "mixed", "fine", "rare"))
    s = dict(mode="random", seed=rng.randrange(1 << 30), p=0.0, hot=0.0, hotfiles=HOTFILES, budget=budget)
    if style == "hot":
        s["hot"] = rng.choice((0.01, 0.03, 0.1))
        s["hotfiles"] = [rng.choice(HOTFILES)] if rng.random() < 0.5 else HOTFILES
    elif style == "mixed":
        s["hot"], s["p"] = 0.02, 0.0005
    elif style == "fine":
        s["p"] = rng.choice((0.002, 0.01))
    else:
        s["p"] = 0.0001
        s["hot"] = 0.001
    return s


def gen(rng, i, tier, threads=0.15, boost=0.1, keep=0.25, plateau=0.2, big=False, **kw):
    p = nsw.gen_ns(rng, **kw)
    d = p["problem"]
    nsw_keep = rng.random() < keep
    if nsw_keep:
        nsw.maybe_keep(rng, p)
    if rng.random() < plateau:
        p["lik"] = gen_lik(rng)
    elif not nsw.is_dyn(d) and not p.get("keep") and rng.random() < boost:
        p["boost"] = True
    if rng.random() < threads:
        p["threads"] = True
        p["sched"] = gen_sched(rng)
        p["miniter"] = min(p["miniter"], 8)
        p["maxiter"] = min(p["maxiter"], 15)
        p["ensemble"] = min(p["ensemble"], 8)
        p["discard"] = min(p["discard"], p["ensemble"] - 2)
        if rng.random() < 0.6:
            p["discard"] = min(4, p["ensemble"] - 2)
    if rng.random() < 0.1:
        p["copymode"] = 1
    if tier == "thorough" and "sched" not in p:
        p["maxiter"] = rng.choice((60, 120, 250))
        if rng.random() < 0.2:
            p["ensemble"] = rng.choice((3, 4, 30, 50))
            p["discard"] = min(p["discard"], p["ensemble"] - 1)
    return p


def gen_lik(rng):
    """what the user's constraint does to the likelihood"""
    return dict(kind=rng.choice(("plateau", "minf", "nan", "floor", "round", "cut")), a=round(rng.uniform(0.1, 0.6), 2),
                h=rng.randrange(1 << 30))


def lik_fn(spec, d):
    """pure function of logL and parameters, for errdis.constrain"""
    k = spec["kind"]
    a = spec["a"]
    r = random.Random(spec["h"])
    u = r.uniform(-0.5, 0.5)

    def region(allpars):
        t = math.sin(3.7 * float(np.sum(allpars)) + 5 * u)
        return (t + 1) / 2 < a

    def f(logL, problem, allpars, low):
        if k == "plateau":
            return math.floor(logL / 3) * 3.0 if math.isfinite(logL) else logL
        if k == "minf":
            return -math.inf if region(allpars) else logL
        if k == "nan":
            return math.nan if region(allpars) else logL
        if k == "floor":
            return max(logL, -40.0)
        if k == "round":
            return round(float(logL), 0)
        if k == "cut":
            return min(logL, -12.0)
        return logL
    return f


def setup(p, ctx):
    ctx.rng = rngseam.install(p.get("bseed", 0), p.get("buggify", 0.0))


def run(p, ctx, checks, build_kw=None, tol=1e-7):
    setup(p, ctx)
    kw = dict(build_kw or {})
    fn = None
    if p.get("lik"):
        fn = lik_fn(p["lik"], p["problem"])

        def dist(e):
            e.constrain = fn
            return e
        kw["dist"] = dist
        ctx.fault("likelihood " + p["lik"]["kind"])
    if p.get("sched"):
        def dead(msg):
            ctx.fail_now("stuck", msg)
        with sched.Scheduler(p["sched"], on_deadlock=dead) as s:
            ctx.sched = s
            w = obs.run_observed(p, ctx, checks, lik=fn, **kw)
        ctx.fault("thread switches", s.switches)
        ctx.count("threads", s.started)
        if s.live_threads():
            ctx.fail("threads.left", "threads left running: %s" % [t.name for t in s.live_threads()])
    else:
        w = obs.run_observed(p, ctx, checks, lik=fn, **kw)
    return w


def shrink(p):
    """smaller runs: fewer iterations, fewer walkers, one engine"""
    import copy

    def q(**k):
        c = copy.deepcopy(p)
        c.update(k)
        return c
    if p.get("buggify"):
        yield q(buggify=0.0)
    if p.get("lik"):
        c = q()
        del c["lik"]
        yield c
    for k in ("keep", "boost", "copymode", "maxsize"):
        if p.get(k):
            c = q()
            del c[k]
            yield c
    if p.get("threads") and p.get("sched"):
        c = q(threads=False)
        del c["sched"]
        yield c
    if p["maxiter"] > 2:
        m = p["maxiter"] // 2
        yield q(maxiter=m, miniter=min(p["miniter"], m))
    if p["miniter"] > 1:
        yield q(miniter=p["miniter"] // 2)
    if p["ensemble"] > 4:
        n = max(3, p["ensemble"] // 2)
        yield q(ensemble=n, discard=min(p.get("discard", 1), n - 1))
    if p.get("discard", 1) > 1:
        yield q(discard=1)
    if len(p["engines"]) > 1:
        for i in range(len(p["engines"])):
            yield q(engines=p["engines"][:i] + p["engines"][i + 1:])
    d = p["problem"]
    for k, v in (("weights", False), ("acc", False), ("tight", False), ("fitpower", False), ("prior", "uniform"), ("dist", "gauss")):
        if d.get(k) and d[k] != v:
            c = q()
            c["problem"][k] = v
            yield c
    if d.get("fitscale"):
        c = q()
        c["problem"]["fitscale"] = False
        yield c


REAL = "the whole library: NestedSampler, Explorer and its threads, all engines, PhantomCollection, WalkerList, problems, priors, error distributions, models, SampleList"
STUBS = "user likelihood hook (errdis.constrain) when the plan bends the likelihood; one extra engine that only observes; random generators: numpy's own streams, with a seeded fraction of extreme values when buggify > 0"
ASSUMPTIONS = ["seeded search over problems, engine mixes, random streams and thread schedules; no proof",
               "threads are switched at source lines and lock operations of the library, not inside a line",
               "data sets are small (6-14 points) and runs short (tens of iterations)"]
STATES = "distinct (model kind, error distribution, ensemble size, sizes of the live models) met at an iteration, hashed"
