"""The annealing amoeba on seeded functions, limits, temperatures and random streams, with failing and reentrant functions."""
import copy, math
import numpy as np
from .. import rngseam

RUNS = dict(quick=2000, thorough=120000)
RULE = "one evaluation is one minimisation with every evaluation of the function recorded, repeated with another global random state and with other amoebas at work inside the function; distinct by the digest of all evaluations"
REAL = "AnnealingAmoeba; in part of the runs through AmoebaFitter"
STUBS = "none; the function to be minimised is the seam, random draws are turned to extremes in part of the runs"
STATES = "function, kind of limits, place of the start, temperature, fault, end (converged, error)"
MIN_EVENTS = 1
LISTS = ()
ASSUMPTIONS = ["functions, starts and random streams are sampled by seed: no proof"]


def gen(rng, i, tier):
    n = rng.choice((2, 2, 3, 4, 5))
    kind = rng.choice(("quad", "rosen", "rastrigin", "steps", "abs", "ridge", "flat", "neg", "expo"))
    c = [round(rng.uniform(-2, 2), 3) for _ in range(n)]
    lk = rng.choice(("none", "none", "box", "box", "scalar", "mixed", "low", "high"))
    p = dict(n=n, kind=kind, c=c, limkind=lk, seed=rng.randrange(1 << 31), offset=rng.choice((0.0, 1.0, 0.3, 100.0)),
             temp=rng.choice((0, 0, 0.1, 1.0, 10.0, 100)), cooling=rng.choice((0.95, 0.5)), steps=rng.choice((2, 5, 10)),
             maxiter=rng.choice((20, 100, 400, 1000)), x0=[round(rng.uniform(-4, 4), 3) for _ in range(n)], xkind=rng.choice(("list", "array", "array")),
             size=rng.choice((1, 0.1, 5, "list", "array")), hole=rng.choice((None, None, None, "nan", "inf", "nanhalf")), eseed=rng.randrange(1 << 30))
    lo = [round(rng.uniform(-5, -0.5), 2) for _ in range(n)]
    hi = [round(rng.uniform(0.5, 5), 2) for _ in range(n)]
    if lk == "scalar":
        p["limits"] = [lo[0], hi[0]]
    elif lk == "box":
        p["limits"] = [lo, hi]
    elif lk == "mixed":
        p["limits"] = [[v if rng.random() < 0.5 else None for v in lo], [v if rng.random() < 0.5 else None for v in hi]]
    elif lk == "low":
        p["limits"] = [lo, [None] * n]
    elif lk == "high":
        p["limits"] = [[None] * n, hi]
    if lk != "none" and rng.random() < 0.3:
        # start on or over an edge
        k = rng.randrange(n)
        p["x0"][k] = rng.choice((lo[k] if lk != "scalar" else lo[0], hi[k] if lk != "scalar" else hi[0], 7.0, -7.0))
    if rng.random() < 0.3:
        tol = rng.choice(((1e-4, None), (None, 1e-4), (1e-8, 1e-8), (1e-2, 1e-2)))
        p["abstol"], p["reltol"] = tol
    p["fault"] = rng.choice((None, None, "raise", "nested", "global", "transient"))
    p["at"] = rng.choice((1, 2, 5, 20, 77))
    p["buggify"] = rng.choice((0.0, 0.0, 0.05, 0.3))
    return p


def function(p):
    c = np.asarray(p["c"])
    k = p["kind"]
    off = p["offset"]

    def f(x):
        x = np.asarray(x, dtype=float)
        d = x - c
        with np.errstate(all="ignore"):
            if p["hole"] == "nan" and d[0] > 0.7:
                return math.nan
            if p["hole"] == "inf" and d[-1] < -0.7:
                return math.inf
            if p["hole"] == "nanhalf" and (math.floor(x[0] * 3) % 2 == 1):
                return math.nan
            if k == "quad":
                v = np.sum(d * d * np.arange(1, len(x) + 1))
            elif k == "rosen":
                v = np.sum(100 * (x[1:] - x[:-1] ** 2) ** 2) + np.sum((1 - x) ** 2)
            elif k == "rastrigin":
                v = np.sum(d * d + 3 * (1 - np.cos(5 * d)))
            elif k == "steps":
                v = np.sum(np.floor(np.abs(d) * 3))
            elif k == "abs":
                v = np.sum(np.abs(d))
            elif k == "ridge":
                v = np.max(np.abs(d)) + 0.1 * abs(d[0])
            elif k == "flat":
                v = 0.0
            elif k == "neg":
                v = -50 * np.exp(-np.sum(d * d))
            elif k == "expo":
                v = np.exp(min(np.sum(np.abs(d)), 600))
            return float(v) + off
    return f


def limits(p):
    if p.get("limits") is None:
        return None, None, None
    lo, hi = p["limits"]
    n = p["n"]
    if p["limkind"] == "scalar":
        return [lo, hi], np.full(n, lo), np.full(n, hi)
    l = [-math.inf if v is None else v for v in lo]
    h = [math.inf if v is None else v for v in hi]
    return [l, h], np.asarray(l), np.asarray(h)


def one(p, ctx, log, fault):
    from BayesicFitting import AnnealingAmoeba, ConvergenceError
    f = function(p)
    lim, lo, hi = limits(p)
    n = p["n"]
    r = np.random.RandomState(p["eseed"] % (1 << 31))
    x0 = np.asarray(p["x0"], dtype=float) if p["xkind"] == "array" else list(p["x0"])
    size = p["size"]
    if size == "list":
        size = [0.5 + 0.1 * k for k in range(n)]
    elif size == "array":
        size = np.asarray([0.5 + 0.1 * k for k in range(n)])
    keep = [repr(np.asarray(v).tolist()) for v in (x0, size, lim)]
    cap = 400000
    boom = RuntimeError("injected")
    real = np.random.RandomState

    def func(x):
        k = len(log)
        xx = np.array(x, dtype=float)
        if fault == "raise" and k + 1 == p["at"]:
            raise boom
        if k > cap:
            ctx.fail_now("endless", "more than %d evaluations with maxiter %d" % (cap, p["maxiter"]))
        v = f(xx)
        if fault == "transient" and p["at"] <= k + 1 < p["at"] + 3:
            v = math.nan
        log.append((xx, v))
        if fault == "global":
            np.random.seed(k)
            np.random.rand(2)
        if fault == "nested" and k + 1 == p["at"]:
            q = dict(p, fault=None, seed=p["seed"] ^ 5, maxiter=50)
            one(q, ctx, [], None)
        return v
    kw = dict(size=size, seed=p["seed"], temp=p["temp"], limits=lim, maxiter=p["maxiter"], cooling=p["cooling"], steps=p["steps"])
    if "abstol" in p:
        kw["abstol"], kw["reltol"] = p["abstol"], p["reltol"]
    am = None
    err = None
    try:
        am = AnnealingAmoeba(func, x0, **kw)
        am.minimize()
    except ConvergenceError as e:
        err = "convergence"
    except ValueError as e:
        if "degenerate" not in str(e):
            raise
        err = "degenerate"
    except RuntimeError as e:
        if e is not boom:
            raise
        err = "raised"
    now = [repr(np.asarray(v).tolist()) for v in (x0, size, lim)]
    ctx.check(keep == now, "arrays", lambda: "start, size or limits of the user are changed: %s, were %s" % (now, keep))
    return am, err, f, lo, hi


def run(p, ctx):
    rngseam.install(p["eseed"], p["buggify"])
    log = []
    am, err, f, lo, hi = one(p, ctx, log, p["fault"])
    st = rngseam.STATE
    if st.bugs:
        ctx.fault("extreme random numbers", st.bugs)
    if p["fault"] and len(log) >= p["at"] - 1:
        ctx.fault(p["fault"])
    if p["hole"]:
        ctx.fault("hole in the function: " + p["hole"], sum(1 for _, v in log if not math.isfinite(v)))
    ctx.count("evaluations", len(log))
    ctx.ev(err, [(x.tolist(), v) for x, v in log[-5:]], len(log))
    for x, v in log:
        ctx.h.update(x.tobytes())
    ctx.state(p["kind"], p["limkind"], p["temp"] > 0, p["fault"], p["hole"], err)
    if lo is not None:
        for k, (x, v) in enumerate(log):
            # a corner placed on an edge is on it to rounding
            # (and where a parameter without limit overflowed, all may be NaN)
            ok = not np.any(x < lo - 1e-9 * (1 + np.abs(np.where(np.isfinite(lo), lo, 0)))) and not np.any(x > hi + 1e-9 * (1 + np.abs(np.where(np.isfinite(hi), hi, 0))))
            ok = ok and (not np.any(np.isnan(x)) or not (np.all(np.isfinite(lo)) and np.all(np.isfinite(hi))))
            ctx.check(ok, "outside", lambda: "evaluation %d of %d is at %s, outside the limits %s" % (k + 1, len(log), x.tolist(), p["limits"]))
    if err == "degenerate":
        ctx.check(lo is not None or p["size"] == 0, "degenerate", "simplex is said to be degenerate without limits")
        return
    if p["fault"] == "raise":
        ctx.check(err == "raised" or len(log) < p["at"], "failure.lost", "an exception in the function does not reach the caller")
        if err == "raised":
            return
    if am is None:
        return
    x, v = np.asarray(am.xopt, dtype=float), am.fopt
    best = min((u for _, u in log if not math.isnan(u)), default=math.inf)
    what = "the result %s of a minimisation that ended with %s" % (x.tolist(), err or "convergence")
    if math.isfinite(best):
        ctx.check(v == best, "best", lambda: "%s has value %r, while %r was the lowest among %d evaluations" % (what, v, best, len(log)))
        ctx.check(f(x) == v, "value", lambda: "%s: its value is said to be %r, the function is %r there" % (what, v, f(x)))
        if lo is not None:
            ctx.check(np.all(x >= lo) and np.all(x <= hi), "result.outside", lambda: "%s is outside the limits %s" % (what, p["limits"]))
    mx = p["maxiter"] if p["temp"] == 0 else p["maxiter"] * p["steps"] + p["steps"] * p["n"]
    ctx.check(am.iter <= mx, "iterations", lambda: "%d iterations where %d is the most" % (am.iter, mx))
    # equal seeds, equal results, whatever else goes on
    if p["fault"] in (None, "global", "nested"):
        log2 = []
        np.random.seed(p["eseed"] % (1 << 31))
        g0 = repr(np.random.get_state())
        rngseam.install(p["eseed"], p["buggify"])
        if p["fault"] == "nested" and p["buggify"]:
            return
        am2, err2, _, _, _ = one(p, ctx, log2, None)
        if p["fault"] is None:
            ctx.check(repr(np.random.get_state()) == g0, "global.state", "the global random generator is used or set")
        ctx.check(err2 == err and len(log) == len(log2) and all(np.array_equal(a[0], b[0], equal_nan=True) for a, b in zip(log, log2)), "seed",
                  lambda: "equal seeds give %d evaluations (%s) and %d (%s)" % (len(log), err, len(log2), err2))
        ctx.check(np.array_equal(am2.xopt, am.xopt, equal_nan=True), "seed.result", "equal seeds give different results")


def shrink(p):
    for k, v in (("fault", None), ("hole", None), ("buggify", 0.0), ("temp", 0), ("size", 1), ("maxiter", 20), ("kind", "quad"), ("offset", 0.0)):
        if p.get(k) != v:
            q = copy.deepcopy(p)
            q[k] = v
            yield q
    if p["n"] > 2:
        q = copy.deepcopy(p)
        q["n"] = 2
        for k in ("c", "x0"):
            q[k] = p[k][:2]
        if p.get("limits") is not None and p["limkind"] != "scalar":
            q["limits"] = [l[:2] for l in p["limits"]]
        yield q
