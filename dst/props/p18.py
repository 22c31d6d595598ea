"""Robust fits around recorded inner fits, with failing inner fits, changing kernels and outliers."""
import copy, math
import numpy as np
import warnings
from .. import fitw, fresh
from . import p14

RUNS = dict(quick=1200, thorough=40000)
RULE = "one evaluation is a sequence of robust fits on one shell, with every inner fit recorded and its weights recomputed; distinct by the digest of the inner fits"
REAL = "RobustShell, its kernels, all fitters inside it"
STUBS = "none; the fit method of the wrapped fitter is recorded and can fail"
STATES = "inner fitter, kernel, one-sidedness, user weights, way of ending, number of inner fits"
MIN_EVENTS = 1
LISTS = ("ops",)
ASSUMPTIONS = ["data, outliers, kernels and failures are sampled by seed: no proof", "resistance to outliers is asked of redescending kernels with a minority of at most one in eight, not at the ends of the data"]


def k_(c, f):
    return lambda x: np.where(np.abs(x) <= 1, f(np.abs(x)), c(np.abs(x)) if callable(c) else c)


KERN = {
    "Biweight": (k_(0.0, lambda a: (1 - a * a) ** 2), 1.0823922),
    "Huber": (lambda x: np.where(np.abs(x) < 1, 1.0, 1 / np.maximum(np.abs(x), 1e-300)), 4.0),
    "Cosine": (k_(0.0, lambda a: np.cos(0.5 * math.pi * a)), 4.0 / 3),
    "Tricube": (k_(0.0, lambda a: (1 - a ** 3) ** 3), 1.18176021),
    "Triangle": (k_(0.0, lambda a: 1 - a), 1.0),
    "Parabola": (k_(0.0, lambda a: 1 - a * a), 2 * math.sqrt(0.5)),
    "CosSquare": (k_(0.0, lambda a: np.cos(0.5 * math.pi * a) ** 2), 1.0),
    "Gauss": (lambda x: np.exp(-0.5 * x * x), 2 * math.sqrt(2 * math.log(2))),
    "Lorentz": (lambda x: 1 / (1 + x * x), 2.0),
    "Triweight": (k_(0.0, lambda a: (1 - a * a) ** 3), 2 * 0.454202),
    "callable": (lambda x: 1 / (1 + x ** 4), None),
}
REDESC = ("Biweight", "Cosine", "Tricube", "Parabola")


def gen(rng, i, tier):
    spec = fitw.genspec(rng, ("Fitter",) * 3 + ("QR", "QR", "LM", "LM", "LM", "Curve", "Amoeba", "NELDER-MEAD", "BFGS", "L-BFGS-B"))
    spec["npts"] = rng.randint(24, 60)
    p = dict(spec=spec, ctor=dict(kernel=rng.choice(sorted(KERN)), onesided=rng.choice((None, None, None, "p", "n")),
                                  domain=rng.choice((None, None, 3.0, 6.0)), maxIter=rng.choice((1, 2, 10, 50)), tolerance=rng.choice((1e-4, 1e-8))))
    if p["ctor"]["kernel"] == "callable" and p["ctor"]["domain"] is None:
        p["ctor"]["domain"] = 4.0
    if rng.random() < 0.2:
        spec["keep"] = fitw.genkeep(rng, spec)
    ops = []
    for k in range(rng.choice((1, 2, 3))):
        op = fitw.genfit(rng, spec, kinds=("fit",), allow=("weights", "accuracy"), keepprob=0.2)
        if rng.random() < 0.3:
            op["kernel"] = rng.choice(sorted(KERN))
            if op["kernel"] == "callable" or rng.random() < 0.3:
                op["domain"] = rng.choice((3.0, 5.0))
        if rng.random() < 0.2:
            op["onesided"] = rng.choice(("p", "n"))
        if rng.random() < 0.7:
            op["outliers"] = dict(seed=rng.randrange(1 << 30), n=rng.randint(1, spec["npts"] // 8), size=rng.choice((3.0, 10.0, 100.0)))
        if rng.random() < 0.25:
            op["failat"] = rng.choice((1, 2, 3, 4))
            op["exc"] = rng.choice(("convergence", "interrupt", "value", "linalg"))
        ops.append(op)
    p["ops"] = ops
    p["outlier"] = rng.random() < 0.35
    if p["outlier"]:
        p["ctor"].update(kernel=rng.choice(REDESC), onesided=None, domain=None, maxIter=100, tolerance=1e-6)
        op = dict(op="fit", data=0, p0=rng.randrange(1 << 30), outliers=dict(seed=rng.randrange(1 << 30), n=rng.randint(1, spec["npts"] // 8), size=rng.choice((3.0, 30.0, 1000.0))))
        if rng.random() < 0.5:
            op["accuracy"] = dict(value=rng.choice((0.01, 0.1, 1.0, 30.0)))
        spec.pop("keep", None)
        spec["fitter"] = rng.choice(("Fitter", "QR", "LM"))
        spec["model"] = rng.choice(("poly1", "poly2", "harm"))
        p["ops"] = [op]
    return p


class Inner:
    def __init__(self, f, ctx):
        self.log = []
        self.failat = None
        self.exc = None
        self.fired = False
        C = f.__class__
        me = self

        class R(C):
            def fit(self, data, weights=None, **kw):
                k = len(me.log) + 1
                rec = dict(weights=None if weights is None else np.array(weights, dtype=float), data=np.array(data, dtype=float), kw=dict(kw))
                if me.failat == k:
                    me.fired = True
                    raise me.exc
                par = C.fit(self, data, weights=weights, **kw)
                rec["par"] = np.array(par, dtype=float)
                with np.errstate(all="ignore"):
                    try:
                        rec["scale"] = float(self.scale)
                    except Exception:
                        rec["scale"] = None
                rec["chisq"] = self.chisq
                me.log.append(rec)
                return par
        R.__name__ = C.__name__
        f.__class__ = R


def shell(p, f):
    c = p["ctor"]
    b = fitw.B()
    from BayesicFitting import RobustShell
    return RobustShell(f, kernel=kern(c["kernel"]), domain=c["domain"], onesided=c["onesided"], maxIter=c["maxIter"], tolerance=c["tolerance"], verbose=0)


def kern(name):
    if name == "callable":
        return KERN["callable"][0]
    import importlib
    import BayesicFitting
    pk = BayesicFitting.__name__
    return getattr(importlib.import_module(pk + ".source.kernels." + name), name)


def callshell(sh, spec, op, a):
    kw = {}
    if a.w is not None:
        kw["weights"] = a.w
    if a.a is not None:
        kw["accuracy"] = a.a
    if a.keep is not None:
        kw["keep"] = a.keep
    if "kernel" in op:
        kw["kernel"] = kern(op["kernel"])
    if "domain" in op:
        kw["domain"] = op["domain"]
    if "onesided" in op:
        kw["onesided"] = op["onesided"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return sh.fit(a.y, **kw)


def one(p, op):
    spec = p["spec"]
    x = fitw.xdata(spec)
    m, f = p14.make(spec, x)
    sh = shell(p, f)
    m.parameters = fitw.start(spec, op["p0"])
    a = fitw.Args(spec, x, op)
    try:
        return [np.asarray(callshell(sh, spec, op, a)).tolist(), np.asarray(sh.weights).tolist(), float(sh.chisq)]
    except Exception as e:
        return ["error", type(e).__name__]


def run(p, ctx):
    spec, c = p["spec"], p["ctor"]
    x = fitw.xdata(spec)
    m, f = p14.make(spec, x)
    inner = Inner(f, ctx)
    sh = shell(p, f)
    for k, op in enumerate(p["ops"]):
        m.parameters = fitw.start(spec, op["p0"])
        a = fitw.Args(spec, x, op)
        inner.log = []
        inner.fired = False
        inner.failat = op.get("failat")
        if inner.failat:
            from BayesicFitting import ConvergenceError
            inner.exc = dict(convergence=ConvergenceError, interrupt=KeyboardInterrupt, value=ValueError, linalg=np.linalg.LinAlgError)[op["exc"]]("injected")
        err, par = None, None
        try:
            par = callshell(sh, spec, op, a)
        except BaseException as e:
            err = e
        kname = op.get("kernel", c["kernel"])
        what = "robust fit %d with %s around %s" % (k, kname, spec["fitter"])
        log = inner.log
        ctx.count("inner fits", len(log))
        ctx.ev(k, kname, [(r["par"].tolist(), r["chisq"]) for r in log], None if par is None else np.asarray(par).tolist(), type(err).__name__)
        ctx.state(spec["fitter"], kname, op.get("onesided", c["onesided"]), "weights" in op, type(err).__name__, min(len(log), 6))
        ch = a.changed()
        ctx.check(not ch, "arrays", lambda: "%s changed arrays of the user: %s" % (what, ch))
        if inner.fired:
            ctx.fault("inner fit fails: " + op["exc"])
            ctx.check(err is inner.exc, "failure.lost", lambda: "%s: the failure of inner fit %d came out as %r" % (what, inner.failat, err))
        elif err is not None and not isinstance(err, Exception):
            raise err
        elif err is not None and not log:
            ctx.count("first fit failed")
        ctx.check(len(log) <= c["maxIter"] + 1, "iterations", lambda: "%s made %d inner fits with maxIter %d" % (what, len(log), c["maxIter"]))
        # the weights of every inner fit
        kf, fwhm = KERN[kname]
        # domain: of this call, of the constructor, or from the kernel of the constructor
        domain = op.get("domain", c["domain"])
        if domain is None:
            domain = 6.0 / KERN[c["kernel"]][1]
        side = op.get("onesided", c["onesided"])
        last = None
        for j, r in enumerate(log):
            ctx.check(np.array_equal(r["data"], a.y), "data", "an inner fit got other data")
            if j == 0:
                same = r["weights"] is None if a.w is None else r["weights"] is not None and np.array_equal(r["weights"], a.w)
                ctx.check(same, "weights.first", lambda: "%s: the first inner fit has weights %s, not those of the user" % (what, r["weights"]))
                continue
            q = log[j - 1]
            if q["scale"] is None or not np.all(np.isfinite(q["par"])):
                continue
            res = a.y - m.result(x, q["par"].copy())
            if a.a is not None:
                res = res / a.a
            with np.errstate(all="ignore"):
                w = kf(res / (q["scale"] * domain))
            if side is not None:
                w = np.where(res < 0 if side == "p" else res > 0, 1.0, w)
            if a.w is not None:
                w = w * a.w
            ctx.check(r["weights"] is not None and r["weights"].shape == w.shape, "weights.missing", lambda: "%s: inner fit %d has no weights" % (what, j))
            ok = np.allclose(r["weights"], w, rtol=1e-6, atol=1e-9)
            ctx.check(ok, "weights", lambda: "%s: inner fit %d has weights %s, the kernel at the residuals of the fit before gives %s" % (what, j, r["weights"].tolist(), w.tolist()))
            ub = 1.0 if a.w is None else a.w
            ctx.check(np.all(r["weights"] >= 0) and np.all(r["weights"] <= ub + 1e-12), "weights.range", lambda: "%s: weights %s" % (what, r["weights"].tolist()))
        if err is None:
            ctx.check(len(log) >= 2, "no.robust", lambda: "%s made %d inner fits" % (what, len(log)))
            ctx.check(np.array_equal(np.abs(par), np.abs(log[-1]["par"])), "result", lambda: "%s returns %s, the last inner fit gave %s" % (what, par, log[-1]["par"]))
            ctx.check(np.allclose(sh.weights, log[-1]["weights"]), "weights.last", lambda: "%s: weights are not those of the last inner fit" % what)
            ctx.check(sh.chisq == log[-1]["chisq"], "chisq", lambda: "%s: chisq %r, the last inner fit has %r" % (what, sh.chisq, log[-1]["chisq"]))
            if len(log) <= c["maxIter"]:
                d = abs(log[-1]["chisq"] - log[-2]["chisq"])
                ctx.check(d < c["tolerance"] * max(1, log[-1]["chisq"]), "stopped.early", lambda: "%s stopped after %d of %d iterations while chisq went from %r to %r" % (what, len(log) - 1, c["maxIter"], log[-2]["chisq"], log[-1]["chisq"]))
            # the shell keeps nothing of one fit for the next: as with a new shell
            if k > 0:
                want = fresh.fresh(lambda: one(p, dict(op, failat=None)))
                got = [np.asarray(par).tolist(), np.asarray(sh.weights).tolist(), float(sh.chisq)]
                ok = fitw.close(got[0], want[0], 1e-9) and fitw.close(got[1], want[1], 1e-7)
                if not ok and fitw.rounding(want, lambda o: one(p, dict(o, failat=None)), op, 1e-10):
                    ctx.count("outcome hangs on rounding")
                    continue
                ctx.check(ok, "history",
                          lambda: "%s: with its history %s, with a new shell %s" % (what, p14.short(got), p14.short(want)))
        if p["outlier"] and err is None:
            outlying(p, op, a, x, m, np.asarray(par), ctx, what)
        # the fitter itself, as if never wrapped
        if k == len(p["ops"]) - 1:
            inner.failat = None
            op2 = dict(op="fit", data=(op["data"] + 1) % 3, p0=op["p0"], reads=["chisq", "scale", "stdevs"])
            want = fresh.fresh(lambda: p14.ref(spec, op2))
            m.parameters = fitw.start(spec, op2["p0"])
            got = fitw.outcome(f, m, spec, op2, fitw.Args(spec, x, op2), op2["reads"])
            for q in sorted(set(want) | set(got)):
                if (q not in want or q not in got or not fitw.close(got[q], want[q], 1e-9)) and fitw.rounding(want, lambda o: p14.ref(spec, o), op2, 1e-10):
                    ctx.count("outcome hangs on rounding")
                    break
                ctx.check(q in want and q in got and fitw.close(got[q], want[q], 1e-9), "wrapped." + q,
                          lambda: "a fit of the wrapped %s: %s is %s; never wrapped it is %s" % (spec["fitter"], q, p14.short(got.get(q)), p14.short(want.get(q))))


def outlying(p, op, a, x, m, par, ctx, what):
    spec = p["spec"]
    y = fitw.data(spec, x, spec["dataseeds"][op["data"]])
    bad = y != a.y
    # leave out outliers near the ends, where they have leverage
    idx = np.where(bad)[0]
    if idx.min() < 0.15 * len(x) or idx.max() > 0.85 * len(x):
        return
    mm, ff = p14.make(dict(spec, fitter="Fitter"), x)
    clean = np.asarray(ff.fit(y, weights=np.where(bad, 0.0, 1.0)))
    plain = np.asarray(ff.fit(a.y))
    d = np.sqrt(np.mean(np.square(mm.result(x, par) - mm.result(x, clean))))
    d0 = np.sqrt(np.mean(np.square(mm.result(x, plain) - mm.result(x, clean))))
    ctx.count("outlier tests")
    ctx.check(d < 0.15 + 0.02 * d0, "pulled", lambda: "%s: %d outliers of size %s among %d points pull the fit %r away (a plain fit %r)" % (what, bad.sum(), op["outliers"]["size"], len(x), d, d0))


def shrink(p):
    for k, op in enumerate(p["ops"]):
        for key in ("weights", "accuracy", "keep", "kernel", "domain", "onesided", "failat", "outliers"):
            if op.get(key):
                q = copy.deepcopy(p)
                q["ops"][k].pop(key)
                yield q
    if p["spec"].get("keep"):
        q = copy.deepcopy(p)
        q["spec"].pop("keep")
        yield q
