"""Monte Carlo errors: seeded histories of calls on several instances, interleaved (also in threads) with users of the global generator and failing calls."""
import copy, math, threading
import numpy as np
import warnings
from .. import fitw, fresh, sched

RUNS = dict(quick=900, thorough=30000)
RULE = "one evaluation is one history of Monte Carlo errors on one to three fits, each instance repeated alone in a fresh process and compared with the propagated covariance; distinct by the digest of the history"
REAL = "MonteCarlo, BaseFitter.monteCarloError, fitters, models"
STUBS = "none; model evaluations pass through a seam that can fail"
STATES = "pairs of successive operations, per number of instances, keep and threads"
MIN_EVENTS = 1
LISTS = ("ops",)
ASSUMPTIONS = ["the noise of M drawings is that of a chi-squared distribution; thresholds at 7 sigma", "histories are sampled by seed: no proof"]


def gen(rng, i, tier):
    fits = []
    for k in range(rng.randint(1, 3)):
        spec = fitw.genspec(rng, ("Fitter", "Fitter", "QR", "LM", "LM", "Curve"))
        spec["p0"] = rng.randrange(1 << 30)
        spec["offset"] = rng.choice((0.0, 0.0, 0.0, 1e6, -3e8)) if spec["model"].startswith("poly") else 0.0
        spec["degenerate"] = spec["fitter"] == "Fitter" and rng.random() < 0.1
        if rng.random() < 0.3:
            spec["keep"] = fitw.genkeep(rng, spec)
        if rng.random() < 0.3:
            spec["weights"] = dict(seed=rng.randrange(1 << 30), zeros=0)
        fits.append(spec)
    inst = []
    for k in range(rng.randint(1, 4)):
        f = rng.randrange(len(fits))
        inst.append(dict(fit=f, seed=rng.choice((12345, rng.randrange(1 << 31), rng.randrange(1 << 31))), mcycles=rng.choice((25, 25, 60, 200)),
                         cscale=rng.choice((1.0, 1e-4)) if fits[f]["model"] in fitw.LINEAR else 1e-6))
    ops = []
    for k in range(rng.randint(2, 9)):
        r = rng.random()
        if r < 0.15:
            ops.append(dict(op="global", seed=rng.choice((None, rng.randrange(1 << 31)))))
        elif r < 0.3:
            ops.append(dict(op="fitter", fit=rng.randrange(len(fits)), x=rng.choice((None, rng.randrange(1 << 30)))))
        else:
            o = dict(op="error", inst=rng.randrange(len(inst)), x=rng.choice((None, rng.randrange(1 << 30))))
            if rng.random() < 0.2:
                o["via"] = "fitter"
            if rng.random() < 0.12:
                o["boom"] = rng.choice((1, 2, 7, 20))
            ops.append(o)
    p = dict(fits=fits, inst=inst, ops=ops)
    if rng.random() < 0.3:
        p["threads"] = 2
        p["sched"] = dict(mode=rng.choice(("random", "random", "pct")), seed=rng.randrange(1 << 30), p=rng.choice((0.02, 0.1)), depth=rng.choice((2, 4)),
                          hot=0.3, hotfiles=["MonteCarlo.py"], budget=20_000_000)
    return p


def dofit(spec):
    x = fitw.xdata(spec)
    if spec.get("degenerate"):
        # (nearly) the same x for all: covariance singular up to rounding
        x = np.where(np.arange(len(x)) % 2 == 0, 0.5, 0.5 + 1e-7)
    m = fitw.model(spec["model"])
    f = fitw.fitter(spec["fitter"], x, m)
    m.parameters = fitw.start(spec, spec["p0"])
    y = fitw.data(spec, x, spec["dataseeds"][0]) + spec["offset"]
    kw = {}
    if spec.get("keep"):
        kw["keep"] = fitw.keepdict(spec["keep"])
    if spec.get("weights"):
        kw["weights"] = fitw.weights(spec["weights"], len(x))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            f.fit(y, **kw)
            c = np.array(f.covariance, dtype=float)
    except Exception:
        return None
    if not np.all(np.isfinite(c)) or not np.all(np.isfinite(m.parameters)):
        return None
    ix = f.fitIndex
    ix = None if ix is None else np.array(ix)
    return dict(x=x, m=m, f=f, c=c, ix=ix, spec=spec)


def points(F, seed):
    if seed is None:
        return None
    r = np.random.RandomState(seed % (1 << 31))
    return r.uniform(-2, 2, r.randint(1, 12))


def instance(F, s):
    return fitw.B().MonteCarlo(F["x"], F["m"], F["c"] * s["cscale"], index=F["ix"], seed=s["seed"], mcycles=s["mcycles"])


def call(F, mc, op):
    """one call; a list, or the name of the failure"""
    if op.get("boom"):
        def hook(n, kind, par, r):
            if n >= op["boom"]:
                raise fitw.Boom("injected")
            return r
        fitw.seam(F["m"], hook)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            x = points(F, op["x"])
            if op["op"] == "fitter":
                return np.asarray(F["f"].monteCarloError(x)).tolist()
            if op.get("via") == "fitter":
                return np.asarray(F["f"].monteCarloError(x, monteCarlo=mc)).tolist()
            return np.asarray(mc.getError(x)).tolist()
    except fitw.Boom:
        return "Boom"
    finally:
        fitw.unseam(F["m"])


def alone(spec, s, ops):
    """the calls of one instance, with nothing else going on"""
    F = dofit(spec)
    mc = instance(F, s) if s else None
    return [call(F, mc, o) for o in ops]


def propagated(F, c, x):
    m, par = F["m"], np.array(F["m"].parameters, dtype=float)
    ix = range(len(par)) if F["ix"] is None else F["ix"]
    D = np.zeros((len(x), len(c)))
    for j, i in enumerate(ix):
        h = 1e-5 * max(1.0, abs(par[i]))
        a, b = par.copy(), par.copy()
        a[i] += h
        b[i] -= h
        if F["spec"]["model"] in fitw.LINEAR:
            z = np.zeros_like(par)
            z[i] = 1.0
            D[:, j] = m.result(x, z)
        else:
            D[:, j] = (m.result(x, a) - m.result(x, b)) / (2 * h)
    v = np.einsum("ij,jk,ik->i", D, c, D)
    size = np.einsum("ij,jk,ik->i", np.abs(D), np.abs(c), np.abs(D))
    return v, size


def run(p, ctx):
    Fs = [dofit(s) for s in p["fits"]]
    if any(F is None for F in Fs):
        ctx.count("fit failed")
        ctx.ev("fit failed")
        ctx.ev("skip")
        return
    pars = [np.array(F["m"].parameters) for F in Fs]
    cov = [F["c"].copy() for F in Fs]
    np.random.seed(77)
    insts = [instance(Fs[s["fit"]], s) for s in p["inst"]]
    own = [[] for _ in insts]
    nth = p.get("threads") or 1
    glob = [o for o in p["ops"] if o["op"] == "global"]
    res = [None] * len(p["ops"])

    def one(k, op):
        if op["op"] == "global":
            if op["seed"] is None:
                np.random.rand(3)
            else:
                np.random.seed(op["seed"])
            ctx.fault("global generator used by others")
            return
        if op["op"] == "fitter":
            res[k] = call(Fs[op["fit"]], None, op)
            return
        if op.get("boom"):
            ctx.fault("model fails")
        s = p["inst"][op["inst"]]
        own[op["inst"]].append(k)
        res[k] = call(Fs[s["fit"]], insts[op["inst"]], op)

    if nth == 1:
        prev = None
        for k, op in enumerate(p["ops"]):
            g0 = repr(np.random.get_state())
            one(k, op)
            ctx.state(prev, op["op"], bool(op.get("boom")), op.get("via"), len(insts))
            prev = op["op"]
            if op["op"] != "global":
                ctx.check(repr(np.random.get_state()) == g0, "global.state", lambda: "operation %d used or set numpy's global random generator" % k)
    else:
        g0 = repr(np.random.get_state())
        # each instance (and each fitter, as its seams and fits are its own) belongs to one thread
        def part(t):
            for k, op in enumerate(p["ops"]):
                f = op["fit"] if op["op"] == "fitter" else p["inst"][op["inst"]]["fit"] if op["op"] == "error" else 0
                o = f if any(q.get("boom") for q in p["ops"]) else op.get("inst", f)
                if o % 2 == t:
                    one(k, op)
        err = []

        def work(t):
            try:
                part(t)
            except BaseException:      # noqa
                import traceback
                err.append(traceback.format_exc()[-1500:])
        with sched.Scheduler(p["sched"], on_deadlock=lambda m: ctx.fail_now("stuck", m)) as s:
            ctx.sched = s
            ts = [threading.Thread(target=work, args=(t,), name="user-%d" % t) for t in range(2)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        ctx.fault("switches between users", s.switches)
        ctx.state("threads", len(insts), len(glob), s.switches)
        if err:
            ctx.fail("threads.error", err[0])
        if not glob:
            ctx.check(repr(np.random.get_state()) == g0, "global.state", "the calls used or set numpy's global random generator")
    ctx.ev(res)
    for F, q, c in zip(Fs, pars, cov):
        ctx.check(np.array_equal(F["m"].parameters, q), "parameters", lambda: "the parameters of the model have changed from %s to %s" % (q, F["m"].parameters))
        ctx.check(np.array_equal(F["c"], c), "covariance", "the covariance matrix given has changed")
    # each instance alone
    for n, ks in enumerate(own):
        if not ks:
            continue
        s = p["inst"][n]
        want = fresh.fresh(lambda: alone(p["fits"][s["fit"]], s, [p["ops"][k] for k in ks]))
        for k, w in zip(ks, want):
            ctx.check(fitw.close(res[k], w, 1e-10), "history", lambda: "operation %d: the error depends on what others did: %s, and %s alone" % (k, res[k], w))
    for k, op in enumerate(p["ops"]):
        if op["op"] == "fitter":
            w = fresh.fresh(lambda: alone(p["fits"][op["fit"]], None, [op]))[0]
            ctx.check(fitw.close(res[k], w, 1e-10), "history.fitter", lambda: "operation %d: the error depends on what was done before: %s, and %s alone" % (k, res[k], w))
    # the propagated covariance
    used = set()
    for k, op in enumerate(p["ops"]):
        if op["op"] == "global" or isinstance(res[k], str):
            continue
        if op["op"] == "fitter":
            F, M, c = Fs[op["fit"]], 25, None
            if F["spec"]["model"] not in fitw.LINEAR:
                continue
            c = F["c"]
        else:
            s = p["inst"][op["inst"]]
            F, M = Fs[s["fit"]], s["mcycles"]
            c = F["c"] * s["cscale"]
        x = points(F, op["x"])
        if x is None:
            x = F["x"]
        v, size = propagated(F, c, x)
        e = np.asarray(res[k])
        ctx.count("errors compared with propagation")
        ctx.check(e.shape == np.shape(x), "shape", lambda: "operation %d: %s errors for %s points" % (k, e.shape, np.shape(x)))
        val, vec = np.linalg.eigh(c)
        if val.min() < -1e-10 * val.max():
            ctx.count("covariance not positive")
            continue
        ctx.check(np.all(np.isfinite(e)) and np.all(e >= 0), "finite", lambda: "operation %d: errors %s where the covariance %s is finite (model values ~ %g)"
                  % (k, e, c.tolist(), np.max(np.abs(F["m"].result(x, F["m"].parameters)))))
        yabs = np.abs(F["m"].result(x, F["m"].parameters))
        if F["spec"].get("degenerate"):
            continue
        ok = (v > 1e-5 * size) & (v > 0) & (np.sqrt(np.maximum(v, 0)) > 1e-9 * yabs)
        if F["spec"]["model"] not in fitw.LINEAR and ok.any():
            # the propagation is linear: only where the model is so over 4 sigma
            par, f0 = np.array(F["m"].parameters), F["m"].result(x, F["m"].parameters)
            for w, u in zip(val, vec.T):
                d = np.zeros_like(par)
                d[slice(None) if F["ix"] is None else F["ix"]] = 4 * math.sqrt(max(w, 0)) * u
                curve = F["m"].result(x, par + d) + F["m"].result(x, par - d) - 2 * f0
                ok &= np.abs(curve) < 0.05 * np.sqrt(np.maximum(v, 0))
        if not ok.any():
            continue
        q = M * np.square(e[ok]) / v[ok]
        d = M - 1.0
        z = (np.cbrt(q / d) - (1 - 2 / (9 * d))) / math.sqrt(2 / (9 * d))
        ctx.check(np.all(np.abs(z) < 7), "propagation", lambda: "operation %d (%d cycles): errors %s, propagated covariance gives %s" % (k, M, e[ok], np.sqrt(v[ok])))
        if op["op"] == "error" and s["seed"] != 12345 and (op["inst"] not in used) and nth == 1:
            used.add(op["inst"])
            ctx.count("chi2 sum", float(q[0]))
            ctx.count("chi2 dof", M - 1)
            ctx.count("chi2 terms", 1)
    # another seed, other errors
    s = p["inst"][0]
    F = Fs[s["fit"]]
    a = instance(F, s).getError()
    b = instance(F, dict(s, seed=s["seed"] ^ 1)).getError()
    v, size = propagated(F, F["c"] * s["cscale"], F["x"])
    if np.max(v) > 0 and np.max(np.sqrt(np.maximum(v, 0))) > 1e-9 * np.max(np.abs(F["m"].result(F["x"], F["m"].parameters))):
        ctx.check(not np.array_equal(a, b), "seed.ignored", "two seeds give the same errors")


def batch(results, tier):
    s = sum(r["counts"].get("chi2 sum", 0) for r in results.values())
    d = sum(r["counts"].get("chi2 dof", 0) for r in results.values())
    n = sum(r["counts"].get("chi2 terms", 0) for r in results.values())
    if d < 1000:
        return None
    lo, hi = d - 7 * math.sqrt(2 * d), d + n + 7 * math.sqrt(2 * (d + n))
    if lo <= s <= hi:
        return None
    return ("batch.propagation", "over all runs the squared Monte Carlo errors are %.4f times the propagated covariance (expected %.4f +- %.4f)"
            % (s / d, 1.0, math.sqrt(2.0 / d)), [])


def shrink(p):
    if p.get("threads"):
        q = copy.deepcopy(p)
        q.pop("threads")
        q.pop("sched")
        yield q
    for k, f in enumerate(p["fits"]):
        for key in ("keep", "weights", "degenerate"):
            if f.get(key):
                q = copy.deepcopy(p)
                q["fits"][k].pop(key)
                yield q
        if f["offset"]:
            q = copy.deepcopy(p)
            q["fits"][k]["offset"] = 0.0
            yield q
