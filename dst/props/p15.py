"""Kept parameters: their values, their standard deviations and the scope of a keep, over seeded histories with failing calls."""
import copy
import numpy as np
from .. import fitw
from . import p14, p13

RUNS = dict(quick=1500, thorough=30000)
RULE = "one evaluation is one history of fits with and without keep on one fitter (failing calls in between), each compared with a model that has the kept values built in; distinct by the digest of the history"
REAL = p14.REAL
STUBS = "none; model evaluations pass through a seam that can fail"
STATES = "fitter, keep at initialization or not, and pairs of successive keeps"
MIN_EVENTS = 2
LISTS = ("ops",)
ASSUMPTIONS = p14.ASSUMPTIONS + ["a keep given to a fit of a fitter with its own keep may replace that or add to it"]
GRAD = ("LM", "Curve", "CG", "BFGS", "NEWTON-CG", "L-BFGS-B", "TNC", "SLSQP")


def gen(rng, i, tier):
    p = p14.gen(rng, i, tier)
    spec = p["spec"]
    spec.pop("errdis", None)
    limits = spec.pop("limits", None)
    spec.pop("keep", None)
    kinds = ("fit", "fit", "fit", "modelFit", "robust")
    if limits and spec["fitter"] in fitw.FITTERS_LIN:
        # (linear fitters heed the limits in limitsFit only)
        spec["limits"] = limits
        kinds += ("limitsFit", "limitsFit")
    if rng.random() < 0.45:
        spec["keep"] = fitw.genkeep(rng, spec, most=1 if rng.random() < 0.6 else None)
    ops = []
    last = None
    for k in range(rng.randint(2, 6)):
        if rng.random() < 0.3:
            b = fitw.genfit(rng, spec, keepprob=0.6)
            b["bad"] = rng.choice(p14.BAD)
            b["at"] = rng.choice((1, 2, 3, 5, 9))
            ops.append(b)
        op = fitw.genfit(rng, spec, kinds=kinds, keepprob=0.55, allow=("weights", "accuracy", "par0"))
        if last is not None and rng.random() < 0.3:
            # the same parameters kept at other values
            op["keep"] = {a: round(v * rng.uniform(0.9, 1.1), 4) for a, v in last.items()}
        if op["op"] == "limitsFit":
            op.pop("keep", None)
        last = op.get("keep") or last
        op["reads"] = []
        ops.append(op)
    p["ops"] = ops
    return p


def isclose(a, b):
    return np.allclose(a, b, rtol=0, atol=0)


def run(p, ctx):
    spec = p["spec"]
    x = fitw.xdata(spec)
    m, f = p14.make(spec, x)
    ckeep = fitw.keepdict(spec.get("keep"))
    n = fitw.NPAR[spec["model"]]
    prev = None
    for k, op in enumerate(p["ops"]):
        if "bad" in op:
            m.parameters = fitw.start(spec, op["p0"])
            p14.badfit(f, m, spec, op, x, ctx)
            continue
        p0 = fitw.start(spec, op["p0"])
        m.parameters = p0.copy()
        a = fitw.Args(spec, x, op)
        skeep = fitw.keepdict(op.get("keep"))
        got = fitw.outcome(f, m, spec, op, a, ["chisq", "covariance", "stdevs"])
        ctx.ev(k, got)
        ctx.count("fits")
        ctx.state(spec["fitter"], sorted(ckeep or ()), prev, sorted(skeep or ()), "error" in got)
        prev = sorted(skeep or ())
        # the sets of kept values that the call may mean
        if skeep is None:
            cand = [ckeep or {}]
        elif ckeep is None:
            cand = [skeep]
        else:
            u = dict(ckeep)
            u.update(skeep)
            cand = [skeep] + ([u] if len(u) < n else [])
        what = "operation %d (%s of %s, keep at initialization %s, in the call %s)" % (k, op["op"], spec["fitter"], ckeep, skeep)
        if "error" in got:
            # a fit which fails with these kept values fails also with a fresh fitter: that is P14
            ctx.count("errors")
            continue
        par = np.asarray(got["parameters"])
        ctx.check(len(par) == n, "length", lambda: "%s returns %d parameters for a model with %d" % (what, len(par), n))
        # (parameters that must be positive are made so, in place, at each evaluation)
        ctx.check(np.array_equal(np.abs(par), np.abs(got["model"])), "model", lambda: "%s returns %s while the model has %s" % (what, par, got["model"]))
        ctx.check(ckeep is None or fitw.keepdict(spec.get("keep")) == f.keep, "scope", lambda: "%s: the keep of the fitter has become %s" % (what, f.keep))
        need = cand[0]
        for i, v in need.items():
            ctx.check(par[i] == v, "kept.value", lambda: "%s: parameter %d is %r, it must be %r" % (what, i, par[i], v))
        errs = []
        for c in cand:
            e = compare(spec, x, op, a, c, par, got, p0)
            if e is None:
                break
            errs.append(e)
        else:
            ctx.fail("built.in", "%s: %s" % (what, errs[0]))
        if skeep is None and ckeep and not isinstance(got["stdevs"], str):
            sd = np.asarray(got["stdevs"])
            ctx.check(len(sd) == n, "stdevs.length", lambda: "%s: %d standard deviations for %d parameters" % (what, len(sd), n))
            for i in range(n):
                if i in ckeep:
                    ctx.check(sd[i] == 0, "kept.stdev", lambda: "%s: kept parameter %d has standard deviation %r" % (what, i, sd[i]))
                else:
                    ctx.check(not sd[i] <= 0, "fitted.stdev", lambda: "%s: fitted parameter %d has standard deviation %r" % (what, i, sd[i]))


def compare(spec, x, op, a, keep, par, got, p0):
    """None if par is what a model with the values of keep built in gives; otherwise what differs"""
    n = len(par)
    free = [i for i in range(n) if i not in keep]
    m = fitw.model(spec["model"])
    w = np.ones(len(x)) if a.w is None else a.w * 1.0
    if a.a is not None:
        w = w / np.square(a.a)
    base = np.asarray(p0, dtype=float).copy()
    for i, v in keep.items():
        base[i] = v
    if any(par[i] != v for i, v in keep.items()):
        return "kept values %s are not in %s" % (keep, par)
    if op["op"] in ("robust", "limitsFit"):
        return None

    def full(q):
        z = base.copy()
        z[free] = q
        return z
    if spec["fitter"] in fitw.FITTERS_LIN:
        D = m.partial(x, base)
        z = base.copy()
        z[free] = 0
        r = a.y - m.result(x, z)
        s = np.sqrt(w)
        sol = np.linalg.lstsq(D[:, free] * s[:, None], r * s, rcond=None)[0]
        if not np.allclose(par[free], sol, rtol=1e-6, atol=1e-8):
            return "the fitted parameters are %s; with %s built in they are %s" % (par[free], keep, sol)
        return None
    # iterative: not worse than the start, and the optimum of the others to good precision for gradient methods
    def chi(z):
        return float(np.sum(w * np.square(a.y - m.result(x, z))))
    c0, c1 = chi(full(base[free])), chi(par)
    if a.par0 is not None:
        c0 = chi(full(np.asarray(a.par0)[free]))
    if spec["fitter"] in ("LM", "Amoeba", "NELDER-MEAD") and not c1 <= c0 * (1 + 1e-9):
        return "chisq with the returned parameters is %r, at the start with %s built in it is %r" % (c1, keep, c0)
    if not isinstance(got["chisq"], str) and abs(got["chisq"] - c1) > 1e-6 * abs(c1):
        return "chisq is reported as %r, with the returned parameters and %s built in it is %r" % (got["chisq"], keep, c1)
    from scipy.optimize import least_squares
    s = np.sqrt(w)
    o = least_squares(lambda q: s * (a.y - m.result(x, full(q))), par[free], xtol=1e-10, ftol=1e-10)
    c2 = chi(full(o.x))
    # a parameter which is kept without reason, or left at its start, is a whole lot off
    if spec["fitter"] in ("LM", "Curve") and c1 > c2 * 2 + 1e-3:
        return "chisq is %r with the returned parameters %s; with %s built in it can be %r" % (c1, par, keep, c2)
    if spec["fitter"] in GRAD and any(par[i] != base[i] for i in free):
        if any(par[i] == base[i] and abs(o.x[j] - base[i]) > 1e-3 for j, i in enumerate(free)):
            return "parameters are not fitted: %s, with %s built in %s" % (par, keep, o.x)
    return None


def shrink(p):
    for q in p14.shrink(p):
        yield q
