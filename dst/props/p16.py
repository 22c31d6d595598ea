"""Iterative fits under models which yield NaN or infinities, singular and flat problems: a finite result or an error, in bounded steps."""
import copy, math, hashlib
import numpy as np
import warnings
from .. import fitw
from . import p14

RUNS = dict(quick=1500, thorough=50000)
RULE = "one evaluation is one iterative fit with a model that is faulted at seeded evaluations or in seeded regions; distinct by the digest of the evaluations"
REAL = p14.REAL
STUBS = "none; the result and the partial of the model pass through a seam that replaces values"
STATES = "fitter, model, kind of fault, way of ending"
MIN_EVENTS = 1
LISTS = ("faults",)
ASSUMPTIONS = ["minimizers of scipy are as they are: their result is checked to be finite and reported truly, not to be better than the start",
               "data, faults and models are sampled by seed: no proof"]
KINDS = ("region", "region", "kth", "kth", "hash", "partial", "flat", "far")
CAP = 100000


def gen(rng, i, tier):
    spec = fitw.genspec(rng, ("LM",) * 5 + ("Amoeba",) * 4 + ("Curve", "Curve") + fitw.FITTERS_IT)
    p = dict(spec=spec)
    if rng.random() < 0.25:
        spec["keep"] = fitw.genkeep(rng, spec)
    if spec["fitter"] in fitw.SCIPY[:4] + ("Amoeba",) and rng.random() < 0.2:
        spec["errdis"] = rng.choice(("gauss", "laplace", "cauchy"))
    if rng.random() < 0.25:
        t = fitw.TRUTH[spec["model"]]
        spec["limits"] = [[v - abs(v) * rng.choice((0.1, 0.5, 3.0)) - 0.05 for v in t], [v + abs(v) * rng.choice((0.1, 0.5, 3.0)) + 0.05 for v in t]]
    op = fitw.genfit(rng, spec, kinds=("fit",), keepprob=0.2)
    op["spread"] = rng.choice((0.05, 0.15, 0.6, 2.0))
    mx = rng.choice((None, None, 5, 40, 200))
    if mx and spec["fitter"] != "Curve":
        op.setdefault("opts", {})["maxiter"] = mx
    if rng.random() < 0.1 and "errdis" not in spec and "keep" not in op and "keep" not in spec and spec["fitter"] not in ("Curve",):
        op["op"] = "robust"
        op.pop("par0", None)
        op.pop("opts", None)
        op["kernel"] = rng.choice(("Biweight", "Huber", "CauchyKernel"))
    p["op"] = op
    fl = []
    for k in range(rng.choice((0, 1, 1, 1, 2))):
        n = fitw.NPAR[spec["model"]]
        kd = rng.choice(KINDS)
        f = dict(kind=kd, value=rng.choice(("nan", "nan", "inf", "-inf", "1e200", "onenan")))
        t = fitw.TRUTH[spec["model"]]
        if kd in ("region", "partial"):
            f["par"] = rng.randrange(n)
            f["side"] = rng.choice((-1, 1))
            f["at"] = t[f["par"]] + f["side"] * abs(t[f["par"]]) * rng.choice((0.01, 0.05, 0.2, 1.0, -0.1))
        elif kd == "kth":
            f["at"] = rng.choice((1, 2, 3, 4, 6, 10, 25))
            f["len"] = rng.choice((1, 1, 2, 5, 100000))
        elif kd == "hash":
            f["p"] = rng.choice((0.05, 0.3, 0.8))
            f["seed"] = rng.randrange(1 << 30)
        fl.append(f)
    p["faults"] = fl
    p["degenerate"] = rng.choice((None, None, None, None, "exact", "duplicate", "constant"))
    return p


def faulted(fl, ctx):
    def value(f, r):
        v = f["value"]
        q = np.array(r, dtype=float)
        if v == "onenan":
            q.flat[q.size // 2] = math.nan
        else:
            q[...] = float(v)
        return q

    def hook(n, kind, par, r):
        if n > CAP:
            ctx.fail_now("endless", "more than %d evaluations of the model" % CAP)
        par = np.asarray(par, dtype=float)
        for f in fl:
            k = f["kind"]
            hit = False
            if k in ("region", "partial"):
                hit = (kind == ("result" if k == "region" else "partial")) and (par[f["par"]] - f["at"]) * f["side"] > 0
            elif k == "kth":
                hit = f["at"] <= n < f["at"] + f["len"]
            elif k == "hash":
                hit = int(hashlib.sha1(par.tobytes() + str(f["seed"]).encode()).hexdigest()[:8], 16) / 0xffffffff < f["p"]
            elif k == "flat":
                if kind == "partial":
                    r = np.zeros_like(np.asarray(r, dtype=float))
                continue
            elif k == "far":
                hit = bool(np.any(np.abs(par) > 5))
            if hit:
                ctx.fault(k + " " + f["value"])
                r = value(f, r)
        return r
    return hook


def run(p, ctx):
    from BayesicFitting import ConvergenceError
    b = fitw.B()
    spec, op = p["spec"], p["op"]
    x = fitw.xdata(spec)
    m, f = p14.make(spec, x)
    if p["degenerate"] == "duplicate":
        # two parameters for one constant
        if not (spec.get("keep") or op.get("keep") or spec.get("limits") or op.get("par0")):
            m = b.PolynomialModel(0)
            m += b.PolynomialModel(1)
            s = dict(spec, limits=None)
            f = fitw.fitter(spec["fitter"], x, m, ctor={"errdis": spec["errdis"]} if spec.get("errdis") else None)
    n = m.npchain
    t = np.asarray(fitw.TRUTH[spec["model"]])
    p0 = fitw.start(spec, op["p0"], op["spread"])
    if len(p0) != n:
        p0 = np.resize(p0, n)
    m.parameters = p0.copy()
    a = fitw.Args(spec, x, op)
    if p["degenerate"] == "exact":
        a.y = np.asarray(fitw.model(spec["model"]).result(x, t), dtype=float)
        if op["p0"] % 2:
            m.parameters = t.copy()
            p0 = t.copy()
    elif p["degenerate"] == "constant":
        a.y = np.zeros_like(a.y)
    fl = [g for g in p["faults"] if g.get("par", 0) < n]
    hook = faulted(fl, ctx)
    h = fitw.seam(m, hook)
    err = None
    par = None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            par = fitw.do(f, m, spec, op, a)
    except ConvergenceError as e:
        err = e
    except (ValueError, RuntimeError, ArithmeticError, np.linalg.LinAlgError) as e:
        err = e
    except Exception as e:
        ctx.fail("error.kind", "%s of %s ended with %s: %s, which does not say what is wrong" % (op["op"], spec["fitter"], type(e).__name__, e))
    nev = h[3]
    fitw.unseam(m)
    ctx.count("evaluations", nev)
    kinds = sorted(set(g["kind"] for g in fl))
    end = "converged" if err is None else type(err).__name__
    ctx.count("end " + end)
    ctx.ev(spec["fitter"], kinds, end, nev, None if par is None else np.asarray(par).tolist())
    ctx.state(spec["fitter"], spec["model"], kinds, p["degenerate"], end)
    what = "%s of %s with faults %s, degenerate %s" % (op["op"], spec["fitter"], fl, p["degenerate"])
    if err is None:
        par = np.asarray(par, dtype=float)
        ctx.check(np.all(np.isfinite(par)), "nan.result", lambda: "%s returned %s as a successful fit" % (what, par))
        ctx.check(len(par) == n, "length", lambda: "%s returned %d parameters of %d" % (what, len(par), n))
        pure = all(g["kind"] != "kth" for g in fl)
        if pure and op["op"] == "fit" and not spec.get("errdis"):
            w = np.ones(len(x)) if a.w is None else a.w * 1.0
            if a.a is not None:
                w = w / np.square(a.a)
            mm = m

            def chi(z):
                fitw.seam(mm, faulted(fl, fake))
                try:
                    return float(np.sum(w * np.square(a.y - mm.result(x, np.array(z, dtype=float)))))
                finally:
                    fitw.unseam(mm)
            fake = ctx.__class__(ctx.plan, ctx.out)
            c1 = chi(par)
            if np.isfinite(c1) or spec["fitter"] in ("LM", "Amoeba"):
                ctx.check(abs(f.chisq - c1) <= 1e-6 * abs(c1) + 1e-12, "chisq.false", lambda: "%s reports chisq %r; with its parameters %s it is %r" % (what, f.chisq, par, c1))
            if spec["fitter"] in ("LM", "Amoeba", "NELDER-MEAD"):
                z = np.asarray(p0 if a.par0 is None else a.par0, dtype=float).copy()
                kp = fitw.keepdict(op.get("keep")) or fitw.keepdict(spec.get("keep")) or {}
                for k, v in kp.items():
                    z[k] = v
                c0 = chi(z)
                inside = True
                if spec.get("limits") and spec["fitter"] == "LM":
                    inside = all(lo <= v <= hi for lo, v, hi in zip(spec["limits"][0], z, spec["limits"][1]))
                if inside and np.isfinite(c0):
                    ctx.check(c1 <= c0 * (1 + 1e-9), "worse", lambda: "%s: chisq %r at the result %s, %r at the start %s" % (what, c1, par, c0, z))
                    ctx.count("compared with the start")
    # bounded
    mx = (op.get("opts") or {}).get("maxiter")
    if op["op"] == "fit":
        if spec["fitter"] == "LM":
            lim = mx if mx else f.maxIter
            ctx.check(f.iter <= lim, "iterations", lambda: "%s: %d iterations, the limit is %d" % (what, f.iter, lim))
            ctx.check(nev <= 6 * lim + 20, "evaluations", lambda: "%s: %d evaluations within %d iterations" % (what, nev, lim))
        elif spec["fitter"] in ("NELDER-MEAD", "CG", "BFGS", "NEWTON-CG") and mx and err is None:
            ctx.check(f.iter <= mx, "iterations", lambda: "%s: %d iterations, the limit is %d" % (what, f.iter, mx))
        elif spec["fitter"] == "Amoeba":
            lim = mx or 1000
            if (op.get("opts") or {}).get("temp"):
                lim = lim * 10 + 10 * n
            ctx.check(nev <= lim * (n + 3) + 200 * n, "evaluations", lambda: "%s: %d evaluations within %d iterations" % (what, nev, lim))
    elif op["op"] == "robust":
        ctx.count("robust")


def shrink(p):
    for key in ("weights", "accuracy", "keep", "opts", "par0"):
        if p["op"].get(key):
            q = copy.deepcopy(p)
            q["op"].pop(key)
            yield q
    for key in ("keep", "errdis", "limits"):
        if p["spec"].get(key) is not None:
            q = copy.deepcopy(p)
            q["spec"].pop(key)
            yield q
    if p["degenerate"]:
        yield dict(copy.deepcopy(p), degenerate=None)
