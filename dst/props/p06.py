"""Stopping rule, bounded explorations, error instead of looping when no start can be found."""
import math
import numpy as np
from .. import nsprop, nsw, obs
from ..nsprop import REAL, STUBS, ASSUMPTIONS, STATES
from .p04 import reference

RUNS = dict(quick=300, thorough=6000)
RULE = "one evaluation is one whole nested sampling run; distinct by the digest of all recorded log-likelihoods"
EVALS = 6000     # likelihood evaluations one exploration of one walker may take, far above any legal number here


def gen(rng, i, tier):
    p = nsprop.gen(rng, i, tier, special="safe", plateau=0.45, threads=0.05)
    r = rng.random()
    if r < 0.35:
        p["end"] = rng.choice((0.5, 1.0, 2.0, 4.0))
        p["maxiter"] = None
        p["ensemble"] = min(p["ensemble"], 8)
        p["miniter"] = rng.choice((1, 5, 20))
    elif r < 0.55:
        p["tolerance"] = rng.choice((-1.0, -2.0, -3.0, -6.0))
        p["end"] = 50
        p["maxiter"] = rng.choice((40, 80, 400))
        p["ensemble"] = min(p["ensemble"], 6)
        p["miniter"] = rng.choice((1, 5, 20))
    p["discard"] = min(p["discard"], p["ensemble"] - 2)
    if rng.random() < 0.25:
        # the likelihood vanishes, from some evaluation on, everywhere; or is flat from there on
        p["lik"] = dict(kind=rng.choice(("vanish", "vanish.nan", "flat", "never", "never.nan", "seldom", "spike")), after=rng.randint(0, 600),
                        a=0.5, h=rng.randrange(1 << 30))
    if p.get("threads"):
        p["maxiter"] = 15 if p["maxiter"] is None else min(p["maxiter"], 15)
    return p


def shrink(p):
    if p.get("maxiter") is not None:
        for q in nsprop.shrink(p):
            yield q
    else:
        for q in nsprop.shrink(dict(p, maxiter=100)):
            yield q


def bend(spec, ctx):
    n = [0]
    memo = {}
    kind, after = spec["kind"], spec["after"]

    def f(logL, problem, allpars, low):
        # the likelihood stays a function of the point: what was seen once is seen again
        m = problem.model
        key = (np.asarray(allpars).tobytes(), np.asarray(m.knots).tobytes() if hasattr(m, "knots") else b"")
        if key not in memo:
            memo[key] = g(logL, low)
        return memo[key]

    def g(logL, low):
        n[0] += 1
        if kind == "never":
            return -math.inf
        if kind == "never.nan":
            return math.nan
        if kind == "seldom":
            return logL if n[0] % 97 == 0 or n[0] > 40 * 97 else -math.inf
        if n[0] <= after:
            return logL
        if kind == "vanish":
            return -math.inf
        if kind == "vanish.nan":
            return math.nan
        if kind == "flat":
            return max(low, -50.0) if low is not None and math.isfinite(low) else -50.0
        if kind == "spike":
            return 1e3 + min(n[0] - after, 40)
        return logL
    return f


def run(p, ctx):
    N, D = p["ensemble"], p.get("discard", 1)
    special = p.get("lik") and p["lik"]["kind"] in ("vanish", "vanish.nan", "flat", "never", "never.nan", "seldom", "spike")
    pp = dict(p)
    kw = {}
    calls = [0, 0]
    base = bend(p["lik"], ctx) if special else (nsprop.lik_fn(p["lik"], p["problem"]) if p.get("lik") else None)
    if special:
        ctx.fault("likelihood " + p["lik"]["kind"])
    if "lik" in pp and base is not None and not special:
        ctx.fault("likelihood " + p["lik"]["kind"])
    pp.pop("lik", None)

    def counting(logL, problem, allpars, low):
        calls[0] += 1
        calls[1] += 1
        if calls[1] > EVALS * (N if calls[0] < 1000 * N or p.get("threads") else 1) * 3:
            ctx.fail_now("exploration.unbounded", "more than %d likelihood evaluations without the next walker being explored" % calls[1])
        return logL if base is None else base(logL, problem, allpars, low)

    def dist(e):
        e.constrain = counting
        return e
    nsprop.setup(pp, ctx)
    holder = {}

    def see(eng, k, low, it):
        calls[1] = 0
        ctx.count("spied")
    spy = nsw.make_spy(ctx, see)(None, None)
    w = nsw.build(pp, extra=[spy], dist=dist)
    if pp["maxiter"] is None:
        w.ns.maxIterations = None
    ctx.ev("built")

    def go():
        try:
            return w.ns.sample()
        except (RuntimeError, Exception) as e:
            # the likelihood may be gone before every walker has its start
            early = isinstance(e, RuntimeError) and "vanish" in p["lik"]["kind"] and not w.ns.samples if special else False
            if early or special and p["lik"]["kind"] in ("never", "never.nan", "seldom"):
                ctx.ev("no start", type(e).__name__)
                ctx.count("refused starts")
                return None
            raise
    if p.get("sched"):
        from .. import sched
        with sched.Scheduler(p["sched"], on_deadlock=lambda m: ctx.fail_now("stuck", m)) as s:
            ctx.sched = s
            ev = go()
    else:
        ev = go()
    if ev is None:
        return
    if special and p["lik"]["kind"] in ("never", "never.nan"):
        ctx.fail("no.start", "the likelihood is nowhere finite, yet the run returned evidence %r" % ev)
    ns = w.ns
    L = [float(s.logL) for s in ns.samples]
    I = int(ns.iteration)
    ctx.count("iterations", I)
    ctx.count("evaluations", calls[0])
    for l in L:
        ctx.ev(round(l, 6))
    if len(L) != I * D + N:
        ctx.fail("count", "%d samples after %d iterations" % (len(L), I))
    stoprule(ctx, ns, L, N, D, pp["miniter"], pp["maxiter"])


def stoprule(ctx, ns, L, N, D, mn, mx, tag=""):
    I = int(ns.iteration)
    # the rule, evaluated after every iteration from the recorded samples alone
    tol = ns.tolerance
    end = ns.end
    left = 0.0
    logZ = None
    s1 = 0.0
    k = 0
    for it in range(0, I + 1):
        # state before iteration it
        if it == 0:
            stop = mn <= 0 and 0 < tol
            a, b, c, info = stop, False, False, 0.0
            near = False
        else:
            info = s1 - logZ
            a = (last - logZ) < tol
            b = mx is not None and it > mx
            c = it > end * N * info / D
            stop = it >= mn and (a or b or c)
            near = it >= mn and not b and (abs(last - logZ - tol) < 1e-6 or abs(it - end * N * info / D) < 1e-6 * (1 + it))
        if not near:
            if stop and it < I:
                ctx.fail("late", tag + "iteration %d should have been the end (tolerance %s, end %s, maximum %s): the run went on to %d" % (it, a, c, b, I))
            if not stop and it == I:
                ctx.fail("early", tag + "the run stopped at iteration %d while the rule says to go on (last contribution %r, limit %r, end at %r, min %d, max %s)"
                         % (it, (last - logZ) if it else None, tol, end * N * info / D, mn, mx))
        if it == I:
            ctx.count("stop tolerance", int(bool(it and a)))
            ctx.count("stop end", int(bool(it and c)))
            ctx.count("stop max", int(bool(it and b)))
            break
        for j in range(D):
            last = left + math.log(1 - math.exp(-1.0 / (N - j))) + L[k]
            z = last if logZ is None else np.logaddexp(logZ, last)
            s1 = L[k] if logZ is None else s1 * math.exp(logZ - z) + L[k] * math.exp(last - z)
            logZ = z
            left -= 1.0 / (N - j)
            k += 1
