"""Independence of a fit of what the fitter did before: seeded histories of fits, reads and failures, each compared with a fresh fitter."""
import copy
import numpy as np
from .. import fitw, fresh

RUNS = dict(quick=700, thorough=20000)
RULE = "one evaluation is one history of fits, reads and failing calls on one fitter, each fit repeated by a fresh fitter in a fresh process; distinct by the digest of the history"
REAL = "all fitters (linear, QR, LevenbergMarquardt, curve, amoeba, scipy wrappers), RobustShell, models, MonteCarlo; scipy's own minimizers"
STUBS = "none; model evaluations pass through a seam that can fail"
STATES = "pairs of successive operations (with their options) per fitter"
MIN_EVENTS = 2
LISTS = ("ops",)
ASSUMPTIONS = ["model.parameters is set by the user before an iterative fit: it is where the fit starts", "histories and data are sampled by seed: no proof"]
BAD = ("nan", "nanweights", "length", "boom", "interrupt")
READS = [r for r in fitw.READS if r != "hessian"]


def gen(rng, i, tier):
    spec = fitw.genspec(rng, fitw.FITTERS_LIN * 3 + ("LM", "LM", "Curve", "Amoeba") + fitw.FITTERS_IT)
    p = dict(spec=spec)
    if rng.random() < 0.3:
        spec["keep"] = fitw.genkeep(rng, spec)
    if rng.random() < 0.2:
        spec["fixedScale"] = rng.choice((0.1, 0.7))
    if spec["fitter"] in fitw.SCIPY[:4] + ("Amoeba",) and rng.random() < 0.2:
        spec["errdis"] = rng.choice(("gauss", "laplace", "cauchy"))
    if rng.random() < 0.3:
        n = fitw.NPAR[spec["model"]]
        t = fitw.TRUTH[spec["model"]]
        lo = [v - abs(v) * rng.choice((0.02, 0.5, 3.0)) - 0.05 for v in t]
        hi = [v + abs(v) * rng.choice((0.02, 0.5, 3.0)) + 0.05 for v in t]
        spec["limits"] = [lo, hi]
    if rng.random() < 0.3:
        spec["noise"] = [0.01, 10.0]
    kinds = ("fit", "fit", "fit", "fit", "modelFit", "robust")
    if "limits" in spec:
        kinds += ("limitsFit", "limitsFit")
    ops = []
    for k in range(rng.randint(2, 6)):
        if rng.random() < 0.25:
            b = fitw.genfit(rng, spec)
            b["bad"] = rng.choice(BAD)
            b["at"] = rng.choice((1, 2, 3, 5, 9))
            ops.append(b)
        op = fitw.genfit(rng, spec, kinds=kinds)
        if op["op"] == "limitsFit" and spec.get("keep"):
            op.pop("keep", None)
        op["reads"] = rng.sample(READS, rng.randint(0, 6))
        if rng.random() < 0.2:
            op["reads"].insert(0, "hessian")
        op["keeppars"] = (spec["fitter"] in fitw.FITTERS_LIN or "par0" in op) and rng.random() < 0.5
        ops.append(op)
    p["ops"] = ops
    return p


def make(spec, x):
    m = fitw.model(spec["model"], limits=spec.get("limits"))
    ctor = {}
    if spec.get("fixedScale") is not None:
        ctor["fixedScale"] = spec["fixedScale"]
    if spec.get("errdis"):
        ctor["errdis"] = spec["errdis"]
    f = fitw.fitter(spec["fitter"], x, m, keep=fitw.keepdict(spec.get("keep")), ctor=ctor)
    return m, f


def ref(spec, op):
    x = fitw.xdata(spec)
    m, f = make(spec, x)
    m.parameters = fitw.start(spec, op["p0"])
    a = fitw.Args(spec, x, op)
    rd = [r for r in op["reads"] if r == "hessian"] + sorted(r for r in op["reads"] if r != "hessian")
    return fitw.outcome(f, m, spec, op, a, rd)


def badfit(f, m, spec, op, x, ctx):
    """a call that fails; what comes out of it does not matter here"""
    from BayesicFitting import ConvergenceError
    a = fitw.Args(spec, x, op)
    b = op["bad"]
    if b == "nan":
        a.y[3] = np.nan
    elif b == "nanweights":
        a.w = np.full(len(x), np.inf)
    elif b == "length":
        a.y = a.y[:-3]
    elif b in ("boom", "interrupt"):
        def hook(n, kind, par, r):
            if n >= op["at"]:
                raise (fitw.Boom if b == "boom" else KeyboardInterrupt)("injected")
            return r
        fitw.seam(m, hook)
    try:
        fitw.do(f, m, spec, op, a)
        ctx.count("faulty calls that succeeded")
    except fitw.FITERR + (ConvergenceError, fitw.Boom, KeyboardInterrupt, AssertionError):
        ctx.fault(b)
    finally:
        fitw.unseam(m)


def run(p, ctx):
    spec = p["spec"]
    x = fitw.xdata(spec)
    x0 = x.copy()
    m, f = make(spec, x)
    prev = None
    given = []
    for k, op in enumerate(p["ops"]):
        if "bad" in op:
            m.parameters = fitw.start(spec, op["p0"])
            badfit(f, m, spec, op, x, ctx)
            prev = op["bad"]
            continue
        want = fresh.fresh(lambda: ref(spec, op))
        if not op.get("keeppars"):
            m.parameters = fitw.start(spec, op["p0"])
        a = fitw.Args(spec, x, op)
        got = fitw.outcome(f, m, spec, op, a, op["reads"])
        ctx.ev(k, op["op"], got)
        ctx.count("fits")
        here = (op["op"], "keep" in op, "weights" in op, "accuracy" in op, "error" in got)
        ctx.state(spec["fitter"], prev, here)
        prev = here
        ch = a.changed()
        if not np.array_equal(x, x0):
            ch.append("xdata")
        ctx.check(not ch, "arrays", lambda: "operation %d (%s) of %s changed the arrays of the user: %s" % (k, op["op"], spec["fitter"], ch))
        for q in sorted(set(want) | set(got)):
            tol = 1e-9 if spec["fitter"] in fitw.FITTERS_LIN and not op.get("keeppars") else 1e-7
            if q not in want or q not in got or not fitw.close(got[q], want[q], tol):
                if fitw.rounding(want, lambda o: ref(spec, o), op, tol / 10):
                    ctx.count("outcome hangs on rounding")
                    break
            if q not in want or q not in got:
                ctx.fail("history." + ("error" if "error" in want or "error" in got else q),
                         "operation %d (%s of %s): with this history %s; with a fresh fitter %s" % (k, op["op"], spec["fitter"], short(got), short(want)))
            if not fitw.close(got[q], want[q], tol):
                ctx.fail("history." + q, "operation %d (%s of %s): %s is %s with this history, and %s with a fresh fitter" % (k, op["op"], spec["fitter"], q, short(got[q]), short(want[q])))
        if "parameters" in got:
            pass
        given.append((k, a))
        for kk, aa in given:
            ch = aa.changed()
            ctx.check(not ch, "arrays.later", lambda: "after operation %d the arrays given to operation %d are changed: %s" % (k, kk, ch))


def short(v):
    s = repr(v)
    return s if len(s) < 400 else s[:400] + "..."


def shrink(p):
    for k, op in enumerate(p["ops"]):
        for key in ("weights", "accuracy", "keep", "opts", "par0", "reads"):
            if op.get(key):
                q = copy.deepcopy(p)
                q["ops"][k].pop(key)
                if key == "reads":
                    q["ops"][k]["reads"] = op["reads"][:-1]
                yield q
    for key in ("keep", "fixedScale", "errdis", "limits", "noise"):
        if p["spec"].get(key) is not None:
            q = copy.deepcopy(p)
            q["spec"].pop(key)
            yield q
