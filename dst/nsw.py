"""Nested sampling workloads: plan -> problem, sampler, and an independent reference for its likelihood."""
import math, random
import numpy as np

LOG2PI = math.log(2 * math.pi)


def B():
    import BayesicFitting as b
    return b


# ------------------------------------------------------------------------------------------ generation
MODELS = ("poly", "poly", "sine", "gauss", "polygauss", "exp", "polydyn", "harmdyn", "splinedyn")
STATIC = ("poly", "sine", "gauss", "polygauss", "exp")
ENGS = ("galilean", "chord", "gibbs", "step", "random")


def gen_problem(rng, models=MODELS, dists=("gauss", "gauss", "laplace", "cauchy", "exponential", "gauss"), small=True,
                priors=True, weights=True, special=None):
    kind = rng.choice(models)
    safe = special == "safe"                 # only likelihoods that are finite all over the prior
    if special is None or safe:
        special = rng.random() < 0.25
    n = rng.randint(6, 14)
    d = dict(kind=kind, n=n, dseed=rng.randrange(1 << 30), noise=rng.choice((0.1, 0.3, 1.0)))
    if kind == "poly":
        d["deg"] = rng.randint(0, 3)
    if kind == "harmdyn":
        d["max"] = rng.choice((None, 2, 3))
    if kind == "polydyn":
        d["max"] = rng.choice((None, 2, 4))
    if kind == "splinedyn":
        d["knots"] = rng.randint(2, 4)
        d["max"] = rng.choice((None, 6))
        d["order"] = rng.choice((1, 2, 3))
        d["n"] = max(n, 10)
        d["dynamic"] = rng.random() < 0.7
    d["dist"] = rng.choice(dists)
    d["scale"] = rng.choice((0.3, 1.0, 2.0))
    d["fitscale"] = rng.random() < 0.5
    if d["dist"] == "exponential":
        d["fitpower"] = d["fitscale"] and rng.random() < 0.5
    d["prior"] = rng.choice(("uniform", "uniform", "gauss", "laplace", "cauchy", "limgauss")) if priors and kind in ("poly",) else "uniform"
    d["weights"] = weights and rng.random() < 0.3 and d["dist"] in ("gauss", "laplace", "exponential")
    d["acc"] = (d["dist"] == "gauss" and rng.random() < 0.2)
    if special and not is_dyn(d):
        r = rng.random()
        if r < 0.25:
            d["dist"], d["fitscale"], d["weights"], d["acc"] = "poisson", False, False, False
            if safe or rng.random() < 0.5:
                d["kind"], d["prior"], d["pos"] = "exp", "uniform", True
        elif r < 0.5:
            d["dist"], d["weights"], d["acc"] = "mixed", False, False
            d["fitpower"] = d["fitscale"] and rng.random() < 0.5
        elif r < 0.7:
            d["kind"], d["dist"], d["fitscale"], d["weights"], d["acc"], d["prior"] = "logistic", "bernoulli", False, False, False, "uniform"
            d["pos"] = safe or rng.random() < 0.5
        elif d["kind"] == "poly":
            d["dist"], d["acc"], d["deg"] = "xyerr", False, max(1, d["deg"])
            d["n"] = min(d["n"], 8)
            d["xacc"] = rng.choice((None, 0.1, [0.2, 0.1]))
            if d["xacc"] is None:
                d["fitscale"] = True
    d["tight"] = rng.random() < 0.3          # narrow prior box: walkers meet the edges
    return d


def engines_for(rng, d, allowed=ENGS):
    dyn = is_dyn(d)
    r = rng.random()
    if r < 0.4:
        e = ["galilean", "chord"]
    elif r < 0.8:
        e = [rng.choice(allowed)]
    else:
        e = rng.sample(allowed, rng.randint(2, min(4, len(allowed))))
    e = [x for x in e if x in allowed] or [rng.choice(allowed)]
    if dyn and d.get("dynamic", True):
        e += ["birth", "death"]
    if d["kind"] == "splinedyn":
        e += ["struct"]
    return e


def is_dyn(d):
    return d["kind"] in ("polydyn", "harmdyn", "splinedyn")


def gen_ns(rng, problem=None, **kw):
    d = problem or gen_problem(rng, **kw)
    p = dict(problem=d, engines=engines_for(rng, d), ensemble=rng.choice((5, 8, 12, 16)), seed=rng.randrange(1, 1 << 31),
             discard=rng.choice((1, 1, 1, 2, 3)), rate=rng.choice((0.5, 1.0, 1.0, 2.0)),
             miniter=rng.choice((5, 10, 20)), maxiter=rng.choice((30, 45, 60)), maxtrials=5,
             buggify=rng.choice((0.0, 0.0, 0.02, 0.1)), bseed=rng.randrange(1 << 30))
    if p["discard"] >= p["ensemble"]:
        p["discard"] = 1
    return p


def maybe_keep(rng, p):
    """keep some parameter fixed"""
    d = p["problem"]
    if is_dyn(d):
        return
    npar = npars(d)
    ks = list(range(npar))
    keep = {}
    if npar > 1 and rng.random() < 0.8:
        k = rng.choice(ks)
        keep[str(k)] = round(rng.uniform(0.2, 0.8), 3)
    if d["fitscale"] and rng.random() < 0.3:
        nh = {"exponential": 2, "mixed": 3}.get(d["dist"], 1)
        keep[str(-nh)] = 0.7
    if keep:
        p["keep"] = keep


def npars(d):
    return {"poly": d.get("deg", 0) + 1, "sine": 3, "gauss": 3, "polygauss": 5, "exp": 2, "logistic": 3}[d["kind"]]


# ------------------------------------------------------------------------------------------ building
class W:
    """a built workload"""
    pass


def data(d):
    r = random.Random("data%d" % d["dseed"])
    n = d["n"]
    x = np.linspace(-1.0, 1.0, n) if d["kind"] != "exp" else np.linspace(0.0, 2.0, n)
    k = d["kind"]
    if k in ("poly", "polydyn", "splinedyn"):
        y = 0.5 + 1.2 * x - 0.7 * x * x * (d.get("deg", 2) > 1)
    elif k in ("sine", "harmdyn"):
        y = 1.1 * np.cos(2 * math.pi * 0.9 * x) + 0.4 * np.sin(2 * math.pi * 0.9 * x)
    elif k == "gauss":
        y = 2.0 * np.exp(-0.5 * ((x - 0.1) / 0.3) ** 2)
    elif k == "polygauss":
        y = 0.3 + 0.2 * x + 2.0 * np.exp(-0.5 * ((x - 0.1) / 0.3) ** 2)
    elif k == "exp":
        y = 2.0 * np.exp(-1.3 * x)
    elif k == "logistic":
        y = 0 * x
    if d["dist"] == "poisson":
        y = np.array([float(_poisson(r, max(2 * (v + 1.5), 0.2))) for v in y])
        return x, y, None, None
    if d["dist"] == "bernoulli":
        return x, np.array([float(r.random() < 0.5 - 0.4 * np.tanh(2 * v)) for v in x]), None, None
    y = y + d["noise"] * np.array([r.gauss(0, 1) for _ in range(n)])
    w = np.array([r.choice((0.5, 1.0, 2.0)) for _ in range(n)]) if d.get("weights") else None
    acc = np.array([r.choice((0.2, 0.5, 1.0)) for _ in range(n)]) if d.get("acc") else None
    return x, y, w, acc


def _poisson(r, m):
    k, t = 0, r.expovariate(1.0)
    while t < m:
        k, t = k + 1, t + r.expovariate(1.0)
    return k


def build_model(d):
    b = B()
    k = d["kind"]
    wide = 1.5 if d.get("tight") else 10.0
    if k == "poly":
        m = b.PolynomialModel(d["deg"])
        np_ = d["deg"] + 1
        lo, hi = [-wide] * np_, [wide] * np_
    elif k == "sine":
        m = b.SineModel()
        lo, hi = [0.2, -wide, -wide], [2.0, wide, wide]
    elif k == "gauss":
        m = b.GaussModel()
        lo, hi = [0.0, -1.0, 0.05], [wide, 1.0, 2.0]
    elif k == "polygauss":
        m = b.PolynomialModel(1)
        m.addModel(b.GaussModel())
        lo, hi = [-wide, -wide, 0.0, -1.0, 0.05], [wide, wide, wide, 1.0, 2.0]
    elif k == "exp":
        m = b.ExpModel()
        lo, hi = [0.1 if d.get("pos") else -wide, -3.0], [wide, 3.0]
    elif k == "logistic":
        m = b.LogisticModel()
        lo, hi = [0.1, -2.0, 0.05], [0.9 if d.get("pos") else 1.3, 2.0, 2.0]
    elif k == "polydyn":
        m = b.PolynomialDynamicModel(1, maxDegree=d["max"])
        lo, hi = [-wide], [wide]
    elif k == "harmdyn":
        m = b.HarmonicDynamicModel(1, maxOrder=d["max"], period=1.1)
        lo, hi = [-wide, -wide], [wide, wide]
    elif k == "splinedyn":
        m = b.SplinesDynamicModel(nrknots=d["knots"], min=-1.0, max=1.0, order=d["order"], maxKnots=d["max"],
                                  dynamic=d.get("dynamic", True))
        lo, hi = [-wide], [wide]
    pr = d.get("prior", "uniform")
    if pr == "uniform":
        m.setLimits(lowLimits=lo, highLimits=hi)
    else:
        lo2, hi2 = [], []
        for i in range(len(lo)):
            if pr == "gauss":
                m.setPrior(i, b.GaussPrior(center=0.0, scale=wide / 2))
                lo2.append(-math.inf), hi2.append(math.inf)
            elif pr == "laplace":
                m.setPrior(i, b.LaplacePrior(center=0.0, scale=wide / 2))
                lo2.append(-math.inf), hi2.append(math.inf)
            elif pr == "cauchy":
                m.setPrior(i, b.CauchyPrior(center=0.0, scale=wide / 4))
                lo2.append(-math.inf), hi2.append(math.inf)
            elif pr == "limgauss":
                m.setPrior(i, b.GaussPrior(center=0.2, scale=wide / 2, limits=[-wide, wide]))
                lo2.append(-wide), hi2.append(wide)
        lo, hi = lo2, hi2
    return m, lo, hi


def build_dist(d):
    b = B()
    lim = [0.05, 50.0] if d["fitscale"] else None
    if d["dist"] == "gauss":
        return b.GaussErrorDistribution(scale=d["scale"], limits=lim), [0.05], [50.0]
    if d["dist"] == "laplace":
        return b.LaplaceErrorDistribution(scale=d["scale"], limits=lim), [0.05], [50.0]
    if d["dist"] == "cauchy":
        return b.CauchyErrorDistribution(scale=d["scale"], limits=lim), [0.05], [50.0]
    if d["dist"] == "uniform":
        return b.UniformErrorDistribution(scale=30.0, limits=[20.0, 60.0] if d["fitscale"] else None), [20.0], [60.0]
    if d["dist"] == "exponential":
        if d["fitscale"] and d.get("fitpower"):
            lim = [[0.05, 0.5], [50.0, 4.0]]
        return b.ExponentialErrorDistribution(scale=d["scale"], power=1.5, limits=lim), [0.05, 0.5], [50.0, 4.0]
    if d["dist"] == "poisson":
        return b.PoissonErrorDistribution(), [], []
    if d["dist"] == "bernoulli":
        return b.BernoulliErrorDistribution(), [], []
    if d["dist"] == "mixed":
        e = b.MixedErrorDistribution(b.GaussErrorDistribution(scale=d["scale"], limits=lim), b.LaplaceErrorDistribution(scale=2 * d["scale"], limits=lim),
                                     fraction=0.7, limits=[0.0, 1.0] if d["fitscale"] and d.get("fitpower") else None)
        return e, [0.05, 0.05, 0.0], [50.0, 50.0, 1.0]
    if d["dist"] == "xyerr":
        return b.Gauss2dErrorDistribution(scale=d["scale"], limits=lim), [0.05], [50.0]
    raise ValueError(d["dist"])


def ref_result(d, x, model, par):
    """model values computed without the library (splines: by a freshly made static spline)"""
    k = d["kind"]
    par = np.asarray(par, dtype=float)
    if k in ("poly", "polydyn"):
        return np.polyval(par[::-1], x) + 0 * x
    if k == "sine":
        t = 2 * math.pi * par[0] * x
        return par[1] * np.cos(t) + par[2] * np.sin(t)
    if k == "gauss":
        return par[0] * np.exp(-0.5 * ((x - par[1]) / par[2]) ** 2)
    if k == "polygauss":
        return par[0] + par[1] * x + par[2] * np.exp(-0.5 * ((x - par[3]) / par[4]) ** 2)
    if k == "logistic":
        return par[0] / (1 + np.exp((par[1] - x) / par[2]))
    if k == "exp":
        return par[0] * np.exp(par[1] * x)
    if k == "harmdyn":
        f = 0 * x
        for i in range(len(par) // 2):
            t = 2 * math.pi * (i + 1) / 1.1 * x
            f = f + par[2 * i] * np.cos(t) + par[2 * i + 1] * np.sin(t)
        return f
    if k == "splinedyn":
        m = B().BasicSplinesModel(knots=np.array(model.knots, dtype=float).copy(), order=d["order"])
        return m.result(x, par)
    raise ValueError(k)


def ref_logl(d, dat, model, par, hyp):
    x, y, w, acc = dat
    x0, xt = x, x
    if d["dist"] == "xyerr":
        par, xt = par[:npars(d)], par[npars(d):]
    f = ref_result(d, xt, model, par)
    r = y - f
    ww = 1.0 if w is None else w
    dist = d["dist"]
    with np.errstate(all="ignore"):
        if dist == "gauss":
            s2 = hyp[0] ** 2 + (0 if acc is None else acc ** 2)
            return float(np.sum(-0.5 * ww * (r * r / s2 + LOG2PI + np.log(s2)) + 0 * r))
        if dist == "poisson":
            if np.any(~(f > 0)):
                return -math.inf
            return float(sum(b * math.log(a) - a - math.lgamma(b + 1) for a, b in zip(f, y)))
        if dist == "bernoulli":
            return float(np.sum(np.log(np.where(y == 0, f, 1 - f))))
        s = hyp[0]
        if dist == "mixed":
            g = -0.5 * (r * r / s ** 2 + LOG2PI + 2 * math.log(s))
            h = -np.abs(r) / hyp[1] - math.log(2 * hyp[1])
            if hyp[2] <= 0 or hyp[2] >= 1:
                return float(np.sum(g if hyp[2] >= 1 else h))
            return float(np.sum(np.logaddexp(g + math.log(hyp[2]), h + math.log(1 - hyp[2]))))
        if dist == "xyerr":
            a = xyacc(d)
            vyy, vxx = a[0] ** 2 + s * s, a[1] ** 2 + s * s
            dx = x0 - xt
            return float(np.sum(-0.5 * ww * (2 * LOG2PI * 0.5 + np.log(vyy * vxx) + r * r / vyy + dx * dx / vxx)))
        if dist == "laplace":
            return float(np.sum(ww * (-np.abs(r) / s - math.log(2 * s))))
        if dist == "cauchy":
            return float(np.sum(np.log(s / (math.pi * (s * s + r * r)))))
        if dist == "exponential":
            p = hyp[1]
            return float(np.sum(ww * (-np.abs(r / s) ** p + math.log(p / (2 * s)) - math.lgamma(1 / p))))
        if dist == "uniform":
            return float(np.sum(ww * np.where(np.abs(r) < s, -math.log(2 * s), -math.inf)))
    raise ValueError(dist)


def vec_logl(d, dat, A, nh):
    """ref_logl of many points at once: A has a row per point, of parameters and hyperparameters"""
    x, y, w, acc = dat
    A = np.asarray(A, dtype=float)
    p = [A[:, k:k + 1] for k in range(A.shape[1])]
    h = p[A.shape[1] - nh:]
    k = d["kind"]
    with np.errstate(all="ignore"):
        if k == "poly":
            f = sum(p[i] * x ** i for i in range(A.shape[1] - nh)) + 0 * x
        elif k == "exp":
            f = p[0] * np.exp(p[1] * x)
        elif k == "gauss":
            f = p[0] * np.exp(-0.5 * ((x - p[1]) / p[2]) ** 2)
        elif k == "sine":
            t = 2 * math.pi * p[0] * x
            f = p[1] * np.cos(t) + p[2] * np.sin(t)
        else:
            raise ValueError(k)
        r = y - f
        ww = 1.0 if w is None else w
        dist = d["dist"]
        if dist == "gauss":
            s2 = h[0] ** 2 + (0 if acc is None else acc ** 2)
            v = -0.5 * ww * (r * r / s2 + LOG2PI + np.log(s2))
        elif dist == "laplace":
            v = ww * (-np.abs(r) / h[0] - np.log(2 * h[0]))
        elif dist == "cauchy":
            v = np.log(h[0] / (math.pi * (h[0] ** 2 + r * r)))
        elif dist == "exponential":
            from scipy import special
            v = ww * (-np.abs(r / h[0]) ** h[1] + np.log(h[1] / (2 * h[0])) - special.gammaln(1 / h[1]))
        else:
            raise ValueError(dist)
        v = np.sum(v + 0 * r, axis=1)
    return np.where(np.isfinite(v), v, -math.inf)


def xyacc(d):
    a = d.get("xacc")
    return (0.0, 0.0) if a is None else (a, a) if not isinstance(a, list) else tuple(a)


def build(p, engines=None, extra=None, dist=None, cls=None, verbose=0, model=None, **kw):
    """returns W with .ns, .logl(model, allpars), .lo/.hi etc"""
    b = B()
    d = p["problem"]
    w = W()
    w.d, w.p = d, p
    w.dat = data(d)
    x, y, wgt, acc = w.dat
    w.x0, w.y0 = x.copy(), y.copy()
    if model is None:
        w.model, w.lo, w.hi = build_model(d)
    else:
        _, w.lo, w.hi = build_model(d)
        w.model = model
    w.dist, w.hlo, w.hhi = build_dist(d)
    if dist is not None:
        w.dist = dist(w.dist)
    w.nh = len(w.hlo)
    w.keep = {int(k): v for k, v in p["keep"].items()} if p.get("keep") else None
    args = dict(weights=wgt, accuracy=acc, distribution=w.dist, ensemble=p["ensemble"], seed=p["seed"], verbose=verbose,
                engines=(engines if engines is not None else p["engines"]) + (extra or []), keep=w.keep, rate=p.get("rate", 1.0),
                maxsize=p.get("maxsize"), threads=p.get("threads", False))
    args.update(kw)
    if cls is None:
        cls = b.NestedSampler
        args.setdefault("discard", p.get("discard", 1))
    if p.get("boost"):
        args["bestBoost"] = True
    w.nx = 0
    if d["dist"] == "xyerr":
        # the true x's are parameters too, after those of the model
        w.nx = len(x)
        wide = 0.3 if d.get("tight") else 1.0
        prob = b.ErrorsInXandYProblem(w.model, xdata=x, ydata=y, weights=args.pop("weights"), accuracy=d.get("xacc"),
                                      prior=b.UniformPrior(limits=[-wide, wide]))
        args.pop("accuracy")
        w.lo, w.hi = list(w.lo) + [v - wide for v in x], list(w.hi) + [v + wide for v in x]
        w.ns = cls(problem=prob, **args)
    else:
        w.ns = cls(x, w.model, y, **args)
    ns = w.ns
    if p.get("copymode"):
        ns.copymode = 1
    ns.minimumIterations = p["miniter"]
    ns.maxIterations = p["maxiter"]
    if "end" in p:
        ns.end = p["end"]
    if "tolerance" in p:
        ns.tolerance = p["tolerance"]
    w.fixedhyp = {}
    for i in range(w.nh):
        fitted = d["fitscale"] and (i == 0 or d.get("fitpower") or (d["dist"] == "mixed" and i == 1))
        if not fitted:
            v = d["scale"] if i == 0 else 1.5
            if d["dist"] == "uniform":
                v = 30.0
            if d["dist"] == "mixed":
                v = (d["scale"], 2 * d["scale"], 0.7)[i]
            if (acc is not None or d.get("xacc") is not None) and i == 0:
                v = 0.0
            w.fixedhyp[i] = v
    return w


# ------------------------------------------------------------------------------------------ oracles
def nparams_of(w, model):
    return int(model.npars)


def check_point(ctx, w, model, allpars, logL, tag, pars=None, tol=1e-7):
    """stored likelihood is that of the stored parameters (P02)"""
    a = np.asarray(allpars, dtype=float)
    npar = len(a) - w.nh
    ref = ref_logl(w.d, w.dat, model, a[:npar], a[npar:])
    if getattr(w, "lik", None) is not None:
        ref = w.lik(ref, None, a, None)
    ok = (ref == logL) or abs(ref - logL) <= tol * (1 + abs(ref))
    if not ok:
        ctx.fail_now(tag + ".logl", "%s: stored logL %r, likelihood of stored parameters %r\nparameters %s" %
                     (tag, float(logL), ref, a.tolist()))
    if int(model.npars) + w.nx != npar:
        ctx.fail_now(tag + ".npars", "%s: %d parameters stored, model has %d" % (tag, npar, model.npars))


def check_domain(ctx, w, allpars, tag, eps=1e-9):
    a = np.asarray(allpars, dtype=float)
    npar = len(a) - w.nh
    keep = w.keep or {}
    for k in range(npar):
        key = k if k in keep else (k - len(a) if (k - len(a)) in keep else None)
        if key is not None:
            if a[k] != keep[key]:
                ctx.fail_now(tag + ".kept", "%s: parameter %d was kept at %r but is %r" % (tag, k, keep[key], a[k]))
            continue
        lo, hi = w.lo[min(k, len(w.lo) - 1)], w.hi[min(k, len(w.hi) - 1)]
        e = eps * (hi - lo) if math.isfinite(hi - lo) else 0
        if not (lo - e <= a[k] <= hi + e) or not math.isfinite(a[k]):
            ctx.fail_now(tag + ".domain", "%s: parameter %d = %r outside its prior [%r, %r]" % (tag, k, a[k], lo, hi))
    for i in range(w.nh):
        key = npar + i if npar + i in keep else (i - w.nh if (i - w.nh) in keep else None)
        v = a[npar + i]
        if i in w.fixedhyp:
            if v != w.fixedhyp[i]:
                ctx.fail_now(tag + ".kepthyp", "%s: fixed hyperparameter %d is %r, not %r" % (tag, i, v, w.fixedhyp[i]))
        elif key is not None:
            if v != keep[key]:
                ctx.fail_now(tag + ".kepthyp", "%s: kept hyperparameter %d is %r, not %r" % (tag, i, v, keep[key]))
        else:
            e = eps * (w.hhi[i] - w.hlo[i])
            if not (w.hlo[i] - e <= v <= w.hhi[i] + e):
                ctx.fail_now(tag + ".domain", "%s: hyperparameter %d = %r outside its prior [%r, %r]" %
                             (tag, i, v, w.hlo[i], w.hhi[i]))


def phantom_lists(ns):
    ph = ns.phantoms.phantoms
    return list(ph.values()) if isinstance(ph, dict) else [ph]


def digest_ns(ns, full=True):
    """everything observable of a finished run"""
    out = [float(ns.logZ), float(ns.info), int(ns.iteration), len(ns.samples)]
    for s in ns.samples:
        out.append((int(s.id), int(s.parent), int(s.start), float(s.logL), float(s.logW)) + tuple(map(float, s.allpars)))
    for e in ns.engines:
        out.append(tuple(int(r) for r in e.report))
    out.append(int(ns.distribution.ncalls))
    return out


def rle(v):
    return repr(float(v))


def make_spy(ctx, fn):
    """an engine that moves nothing: the library's own extension point, used to look at the live points"""
    b = B()

    class Spy(b.Engine):
        def __init__(self, walkers=None, errdis=None, copy=None, **kw):
            if copy is None:
                super().__init__(walkers, errdis, **kw)
            else:
                super().__init__(walkers, errdis, copy=copy)

        def copy(self):
            return Spy(self.walkers, self.errdis, copy=self)

        def __str__(self):
            return "Spy"

        def execute(self, kw, lowLhood, append=False, iteration=0):
            fn(self, kw, lowLhood, iteration)
            return 0
    return Spy


def counted(name, rec, seed=None, slow=None):
    """an engine of the library that notes, through its public methods, when it is called and what it accepts"""
    import _thread
    from BayesicFitting import source as src
    import importlib
    cn = dict(galilean="GalileanEngine", chord="ChordEngine", gibbs="GibbsEngine", step="StepEngine", random="RandomEngine",
              birth="BirthEngine", death="DeathEngine", struct="StructureEngine")[name]
    E = getattr(importlib.import_module("BayesicFitting.source." + cn), cn)

    class Counted(E):
        def copy(self):
            c = E.copy(self)
            c.__class__ = Counted
            return c

        def execute(self, kw, lowLhood, append=False, iteration=0):
            t = _thread.get_ident()
            rec.append(("call", t, name, int(kw), iteration, len(self.walkers[kw].allpars), float(lowLhood)))
            mv = E.execute(self, kw, lowLhood, append=append, iteration=iteration)
            rec.append(("moves", t, name, int(kw), iteration, mv))
            return mv

        def setWalker(self, kw, problem, allpars, logL, *args, **kwargs):
            rec.append(("accept", _thread.get_ident(), name, int(kw), float(logL)))
            return E.setWalker(self, kw, problem, allpars, logL, *args, **kwargs)
    kw = {} if slow is None else dict(slow=slow)
    if seed is not None:
        kw["seed"] = seed
    return Counted(None, None, **kw)


class Probe:
    """stands in for the sampler's restart option: called by the main loop after every iteration"""
    def __init__(self, fn):
        self.fn = fn

    def wantRestore(self):
        return False

    def wantSave(self):
        self.fn()
        return False
