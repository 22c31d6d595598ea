"""Reports: the same run with and without reporting, output and process-wide settings watched."""
import io, json, sys, random as _random, warnings
import numpy as np
from .. import nsprop, nsw, fresh, sched, fitw, rngseam
from ..nsprop import ASSUMPTIONS
from .p09 import Bomb, KINDS

RUNS = dict(quick=240, thorough=5000)
RULE = "one evaluation is one sampler run, fit, robust fit or minimisation without any report in a fresh process, and once more with reports of a seeded kind in a seeded environment; distinct by the digest of the outcome"
REAL = nsprop.REAL + "; all fitters, RobustShell, AnnealingAmoeba, NestedSolver, PhantomSampler; Formatter, Plotter, IterationPlotter with matplotlib's Agg back end"
STUBS = "standard output (captured), plt.show, plt.pause and time.sleep (recorded, return at once)"
STATES = "distinct (kind of world, verbosity, plot choice, environment, failing or not)"
MIN_EVENTS = 2
LISTS = ()

ENVS = ("plain", "print", "err", "filters", "format")


def gen(rng, i, tier):
    r = rng.random()
    p = dict(env=rng.sample(ENVS[1:], rng.choice((0, 0, 1, 2))), eseed=rng.randrange(1 << 30), verbose=rng.choice((0, 0, 1, 1, 2, 3, 4, 5)))
    if r < 0.55:
        p["world"] = "ns"
        q = nsprop.gen(rng, i, tier, threads=0.35, boost=0.15, keep=0.25, plateau=0.15)
        q["buggify"] = 0.0
        q["maxiter"], q["miniter"] = min(q["maxiter"], 25), min(q["miniter"], 8)
        if rng.random() < 0.5:
            q["maxiter"] = max(q["maxiter"], 12)
            q["miniter"] = max(q["miniter"], 12)
        p["ns"] = q
        p["plot"] = rng.choice((False, False, False, True, "iter", "last", "all", "test"))
        if rng.random() < 0.12:
            p["fail"] = dict(at=int(10 ** rng.uniform(0, 2.8)), kind=rng.choice(KINDS))
        if rng.random() < 0.3:
            p["setverbose"] = True
    elif r < 0.83:
        p["world"] = "fit"
        f = fitw.genspec(rng, fitw.FITTERS_LIN + fitw.FITTERS_IT)
        p["spec"] = f
        p["fit"] = fitw.genfit(rng, f, kinds=("fit",))
        if p["fit"].get("opts"):
            p["fit"]["opts"].pop("maxiter", None)
        p["plot"] = rng.choice((False, True))
        if f["fitter"] not in ("Curve", "Fitter", "QR") and rng.random() < 0.15:
            p["fail"] = dict(at=int(10 ** rng.uniform(0, 1.7)), kind="ValueError")
    elif r < 0.9:
        p["world"] = "robust"
        f = fitw.genspec(rng, ("Fitter", "QR", "LM"))
        p["spec"] = f
        p["fit"] = fitw.genfit(rng, f, kinds=("robust",), keepprob=0.2)
        p["plot"] = False
    else:
        p["world"] = rng.choice(("amoeba", "solver", "phantom"))
        p["n"] = rng.randint(5, 9)
        p["seed"] = rng.randrange(1, 1 << 30)
        p["temp"] = rng.choice((0, 0, 1.0))
        p["plot"] = rng.choice((False, False, False, True, "iter", "last", "all")) if p["world"] == "solver" else False
        if p["world"] == "phantom":
            q = nsprop.gen(rng, i, tier, threads=0.0, boost=0.0, keep=0.2, plateau=0.0, special="safe")
            q["buggify"], q["maxiter"], q["miniter"] = 0.0, 15, 8
            q["ensemble"] = max(q["ensemble"], 8)
            if nsw.is_dyn(q["problem"]):
                q = nsprop.gen(rng, i, tier, threads=0.0, boost=0.0, keep=0.0, plateau=0.0, special="safe", models=("poly", "sine"))
                q["buggify"], q["maxiter"], q["miniter"] = 0.0, 15, 8
            q["engines"] = ["galilean", "chord"]
            p["ns"] = q
    return p


def shrink(p):
    import copy
    for k in ("fail", "setverbose"):
        if k in p:
            q = copy.deepcopy(p)
            del q[k]
            yield q
    if p.get("plot"):
        yield dict(p, plot=False)
    for e in p["env"]:
        yield dict(p, env=[x for x in p["env"] if x != e])
    if p["verbose"] > 0:
        yield dict(p, verbose=p["verbose"] - 1)
    if p["world"] in ("ns", "phantom"):
        for q in nsprop.shrink(p["ns"]):
            yield dict(p, ns=q)
    if "fit" in p:
        for k in ("weights", "accuracy", "keep", "par0", "opts"):
            if p["fit"].get(k) is not None:
                q = copy.deepcopy(p)
                del q["fit"][k]
                yield q


class Quiet(io.StringIO):
    pass


# objects of the run under way, to print their attributes afterwards
PRINT = []


def settings():
    import matplotlib
    import BayesicFitting.source.Formatter as F
    return {
        "numpy's print options": repr(sorted(np.get_printoptions().items(), key=str)),
        "numpy's error settings": repr(np.geterr()) + repr(np.geterrcall()),
        "numpy's global random state": repr([v if not isinstance(v, np.ndarray) else v.tobytes() for v in np.random.get_state()]),
        "python's global random state": repr(_random.getstate()),
        "warning filters": repr(warnings.filters),
        "warning display": repr(warnings.showwarning) + repr(getattr(warnings, "_showwarnmsg_impl", None)),
        "formatter settings": repr([sorted(F.fmt.items(), key=str), F.gllen, F.gindent, F.gmax]),
        "matplotlib's settings": repr(sorted(matplotlib.rcParams.items(), key=str)),
        "standard streams": repr((id(sys.stdout), id(sys.stderr))),
        "recursion limit": sys.getrecursionlimit(),
        "interpreter's switch interval": sys.getswitchinterval(),
    }


def surround(p):
    """what a user may have set for all of the process"""
    import BayesicFitting.source.Formatter as F
    r = _random.Random(p["eseed"])
    np.random.seed(p["eseed"] % (1 << 32))
    _random.seed(p["eseed"])
    if "print" in p["env"]:
        np.set_printoptions(precision=r.choice((2, 5, 12)), suppress=r.random() < 0.5, threshold=r.choice((3, 50)), linewidth=r.choice((40, 200)))
    if "err" in p["env"]:
        np.seterr(all="ignore", over=r.choice(("ignore", "warn")), divide=r.choice(("ignore", "warn")), under="warn")
    if "filters" in p["env"]:
        warnings.filterwarnings("ignore", category=DeprecationWarning)
        warnings.filterwarnings(r.choice(("ignore", "once")), message="surely not this one")
    if "format" in p["env"]:
        F.formatter_init(format={"float64": r.choice((" %10.4f", " %g"))}, linelength=r.choice((40, 200)), indent=r.choice((0, 3)), max=r.choice((None, 3, 10)))


def stub():
    import matplotlib.pyplot as plt
    import time
    plt.show = lambda *a, **k: None
    plt.pause = lambda *a, **k: None
    time.sleep = lambda *a, **k: None
    for nm, m in list(sys.modules.items()):
        if nm.startswith("BayesicFitting.source") and hasattr(m, "sleep"):
            m.sleep = lambda *a, **k: None


def outcome(p, ctx, verbose, plot, fail=True):
    """everything the user gets out of it; reports are not part of it"""
    b = nsw.B()
    wd = p["world"]
    ctx2 = ctx
    if wd in ("ns", "phantom"):
        q = p["ns"]
        ctx.rng = rngseam.install(q.get("bseed", 0), 0.0)
        fn = nsprop.lik_fn(q["lik"], q["problem"]) if q.get("lik") else None
        bomb = Bomb(dict(at=p["fail"]["at"], where="constrain", kind=p["fail"]["kind"]), ctx2) if p.get("fail") and fail else None

        def dist(e):
            if fn is None and bomb is None:
                return e

            def con(logL, problem, allpars, low):
                if bomb is not None:
                    bomb.tick()
                return logL if fn is None else fn(logL, problem, allpars, low)
            e.constrain = con
            return e
        kw = {}
        if wd == "phantom":
            kw["cls"] = b.PhantomSampler
        w = nsw.build(q, dist=dist, verbose=0 if p.get("setverbose") else verbose, **kw)
        if p.get("setverbose"):
            w.ns.verbose = verbose
        PRINT.extend((w.ns, w.ns.problem, w.ns.distribution, w.ns.engines[0]) if p["verbose"] > 1 else ())
        try:
            if q.get("sched"):
                with sched.Scheduler(q["sched"], on_deadlock=lambda m: ctx.fail_now("stuck", m)) as s:
                    ctx.sched = s
                    w.ns.sample(plot=plot)
            else:
                w.ns.sample(plot=plot) if wd == "ns" else w.ns.sample()
        except BaseException as e:
            if bomb is not None and bomb.fired:
                return ["failed as wanted"]
            if isinstance(e, RuntimeError) and "valid starting" in str(e):
                return ["no start"]
            raise
        nw = len(w.ns.walkers)
        d = [repr(x) for x in nsw.digest_ns(w.ns)]
        if verbose >= 4 or wd == "phantom":
            d = d[:-1]
        return d + [repr(np.asarray(w.ns.walkers[k].allpars).tolist()) for k in range(nw)]
    if wd in ("fit", "robust"):
        spec, op = p["spec"], p["fit"]
        m = fitw.model(spec["model"])
        m.parameters = fitw.start(spec, op["p0"])
        x = fitw.xdata(spec)
        PRINT.extend((m,) if p["verbose"] > 1 else ())
        f = fitw.fitter(spec["fitter"], x, m)
        args = fitw.Args(spec, x, op)
        kw = {}
        for k, v in (("weights", args.w), ("keep", args.keep), ("accuracy", args.a)):
            if v is not None:
                kw[k] = v
        if args.par0 is not None:
            kw["inipar" if spec["fitter"] == "Curve" else "par0"] = args.par0
        kw.update(op.get("opts") or {})
        fired = [0]
        if p.get("fail") and fail:
            def hook(n, kind, par, v):
                if n == p["fail"]["at"]:
                    fired[0] = 1
                    raise ValueError("injected")
                return v
            fitw.seam(m, hook)
        out = {}
        try:
            if wd == "robust":
                sh = b.RobustShell(f, kernel=fitw.kernel(op["kernel"]), verbose=verbose, **({"domain": 4.0} if op["kernel"] == "CauchyKernel" else {}))
                kw.pop("verbose", None)
                par = sh.fit(args.y, **kw)
                out["robust weights"] = np.asarray(sh.weights).tolist()
            else:
                if spec["fitter"] not in fitw.FITTERS_LIN + ("Curve",):
                    kw["verbose"] = verbose
                if plot and spec["fitter"] != "QR":
                    kw["plot"] = True
                par = f.fit(args.y, **kw)
        except fitw.FITERR + (b.ConvergenceError,) as e:
            if fired[0]:
                return ["failed as wanted"]
            return [type(e).__name__]
        finally:
            fitw.unseam(m)
        out["parameters"] = np.asarray(par, dtype=float).tolist()
        for r in ("chisq", "scale", "stdevs", "yfit"):
            out[r] = fitw.read(f, r, spec)
        out["model"] = np.asarray(m.parameters, dtype=float).tolist()
        out["arrays of the user changed"] = args.changed() + ([] if np.array_equal(x, fitw.xdata(spec)) else ["xdata"])
        out["iterations"] = getattr(f, "iter", None)
        return [repr((k, out[k])) for k in sorted(out)]
    if wd == "amoeba":
        c = np.linspace(-1, 1, 3)

        def fun(v):
            return float(np.sum((v - c) ** 2) + 0.3 * np.sum(np.cos(5 * v)))
        a = b.AnnealingAmoeba(fun, np.array([0.5, -0.5, 0.8]), temp=p["temp"], seed=p["seed"], verbose=verbose, maxiter=3000)
        try:
            a.minimize()
        except b.ConvergenceError as e:
            return [type(e).__name__]
        return [repr(np.asarray(a.xopt).tolist()), repr(float(a.fopt)), repr(int(a.ncalls)), repr(a.iter)]
    if wd == "solver":
        r = np.random.RandomState(p["seed"] % (1 << 31))
        xy = r.rand(p["n"], 2) * 10
        prob = b.SalesmanProblem(xdata=xy, oneway=False)
        ns = b.NestedSolver(prob, ensemble=8, seed=p["seed"], verbose=verbose, discard=1)
        ns.minimumIterations, ns.maxIterations = 10, 15
        ns.solve(plot=plot) if plot else ns.solve()
        return [repr([list(map(int, s.allpars)) for s in ns.samples]), repr([float(s.logL) for s in ns.samples])]
    raise KeyError(wd)


def run(p, ctx):
    stub()
    wd = p["world"]
    ctx.fault("world " + wd)
    ctx.state(wd, p["verbose"], p.get("plot"), p["env"], bool(p.get("fail")))

    def ref():
        sys.stdout = Quiet()
        return [outcome(p, ctx, 0, False), sys.stdout.getvalue()]
    want, said = fresh.fresh(ref)
    ctx.ev(want)
    if said and want and want[0] not in ("failed as wanted", "no start") and len(want) > 1:
        ctx.fail("output", "%s: with verbosity 0 and without plots it printed %r" % (wd, said[:300]))
    if p.get("fail"):
        ctx.fault("failing run")
    surround(p)
    out = sys.stdout = Quiet()
    b = nsw.B()
    PRINT.clear()
    old = settings()
    got = outcome(p, ctx, p["verbose"], p["plot"])
    nout = out.tell()
    for x in PRINT:
        b.Tools.printclass(x)
    new = settings()
    if PRINT:
        out.truncate(nout)
    ctx.count("characters reported", len(out.getvalue()))
    if p["verbose"]:
        ctx.count("reporting runs")
    if p["plot"]:
        ctx.count("plotting runs")
    for e in p["env"]:
        ctx.fault("environment " + e)
    how = "verbosity %d, plot %r, environment %s" % (p["verbose"], p["plot"], p["env"])
    if p["verbose"] == 0 and out.getvalue() and want and len(want) > 1:
        ctx.fail("output", "%s: %s: printed %r" % (wd, how, out.getvalue()[:300]))
    for k in old:
        if old[k] != new[k]:
            ctx.fail("settings:" + k, "%s: %s: %s changed from %.200s to %.200s" % (wd, how, k, old[k], new[k]))
    ctx.ev(got)
    if wd in ("ns",) and (p["verbose"] >= 4 or p["ns"].get("threads")):
        # consistency checks at these verbosities are counted as calls
        n = p["ns"]["ensemble"]
        want = cut(want, n)
        got = cut(got, n) if p["verbose"] < 4 else got
        if p["ns"].get("threads"):
            # another schedule: only that both end
            want, got = want[:1] and want[-1:] == want[-1:], got[:1] and got[-1:] == got[-1:]
    if want != got:
        k = next((j for j in range(min(len(want), len(got))) if want[j] != got[j]), -1) if isinstance(want, list) else -1
        ctx.fail("outcome", "%s: %s: item %d of the outcome is %.200s, without reports %.200s" % (wd, how, k, got[k] if k >= 0 else len(got), want[k] if k >= 0 else len(want)))


def cut(d, n):
    """without the number of likelihood calls"""
    if len(d) < 2:
        return d
    return d[:-n - 1] + d[-n:]
