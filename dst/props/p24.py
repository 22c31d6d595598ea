"""P24: distribution of starting walkers, and stationarity of the exploration engines, over simulated ensembles."""
import math, random
import numpy as np
from .. import nsw, rngseam

RUNS = dict(quick=200, thorough=6000)
RULE = "one evaluation is one batch of simulated ensembles of one engine; distinct by the digest of the final positions"
STATES = "per batch: engine, model, error distribution, kinds of priors, kept parameters, fraction of the prior left, constraint"
REAL = ["engines", "Engine ranges and PhantomCollection", "WalkerList", "Walker", "priors", "models", "error distributions"]
STUBS = ["the sampling loop: ensembles are drawn by the check from the exact constrained prior (own inverse distribution "
         "functions and own likelihood), and walkers are handed to the engine one by one"]
ASSUMPTIONS = ["statistical: thresholds are so wide that a right engine passes with certainty for all practical purposes; "
               "only gross departures are seen", "positions are compared per parameter, in logL and in quadrants of pairs"]
MIN_EVENTS = 1

KINDS = ("poly", "poly", "poly", "exp", "gauss", "sine")
DISTS = ("gauss", "gauss", "laplace", "cauchy", "exponential")
PRIORS = ("uniform", "uniform", "gauss", "limgauss", "laplace", "limlaplace", "cauchy", "limcauchy", "exponential", "hiexponential",
          "jeffreys", "circular", "circgauss")


# ------------------------------------------------------------------------------------------ own priors
def gen_prior(rng, kinds=PRIORS):
    k = rng.choice(kinds)
    c, s = round(rng.uniform(-1, 1), 2), round(rng.uniform(0.4, 2.0), 2)
    lo = round(c - s * rng.uniform(0.1, 2.5), 3)
    hi = round(c + s * rng.uniform(0.3, 2.5), 3)
    if k in ("exponential", "hiexponential"):
        lo, hi = 0.0, round(s * rng.uniform(0.7, 3), 3)
    if k == "jeffreys":
        lo, hi = 0.1, round(rng.uniform(0.5, 9.0), 2)
    if k == "circgauss":
        c = round((lo + hi) / 2, 4)
    return dict(k=k, c=c, s=s, lo=lo, hi=hi)


def base(k):
    return k.replace("lim", "").replace("circ", "")


def F(k, z):
    """standard distribution functions"""
    from scipy import special
    if k == "gauss":
        return special.ndtr(z)
    if k == "cauchy":
        return 0.5 + np.arctan(z) / math.pi
    if k == "exponential":
        return -np.expm1(-z)
    e = 0.5 * np.exp(-np.abs(z))
    return np.where(z < 0, e, 1 - e)


def Q(k, u):
    """and their inverses"""
    from scipy import special
    if k == "gauss":
        return special.ndtri(u)
    if k == "cauchy":
        return np.tan(math.pi * (u - 0.5))
    if k == "exponential":
        return -np.log1p(-u)
    return np.where(u < 0.5, np.log(2 * np.minimum(u, 0.5)), -np.log(2 * np.minimum(1 - u, 0.5)))


def span(q):
    """kind, center, scale and the part of the distribution function that is left by the limits"""
    k, c, s, lo, hi = q["k"], q["c"], q["s"], q["lo"], q["hi"]
    if k == "exponential":
        return k, 0.0, s, 0.0, 1.0
    if k == "hiexponential":
        return "exponential", 0.0, s, 0.0, F("exponential", hi / s)
    if k.startswith("lim") or k.startswith("circ"):
        return base(k), c, s, F(base(k), (lo - c) / s), F(base(k), (hi - c) / s)
    return k, c, s, 0.0, 1.0


def quantile(q, u):
    """own inverse distribution functions"""
    k, lo, hi = q["k"], q["lo"], q["hi"]
    if k in ("uniform", "circular"):
        return lo + (hi - lo) * u
    if k == "jeffreys":
        return lo * (hi / lo) ** u
    k, c, s, a, b = span(q)
    return c + s * Q(k, a + u * (b - a))


def cdf(q, x):
    k, lo, hi = q["k"], q["lo"], q["hi"]
    if k in ("uniform", "circular"):
        return (x - lo) / (hi - lo)
    if k == "jeffreys":
        return np.log(x / lo) / math.log(hi / lo)
    k, c, s, a, b = span(q)
    return (F(k, (x - c) / s) - a) / (b - a)


def make_prior(q):
    b = nsw.B()
    k, c, s, lim = q["k"], q["c"], q["s"], [q["lo"], q["hi"]]
    if k == "uniform":
        return b.UniformPrior(limits=lim)
    if k == "circular":
        return b.UniformPrior(circular=True, limits=lim)
    if k == "jeffreys":
        return b.JeffreysPrior(limits=lim)
    if k == "exponential":
        return b.ExponentialPrior(scale=s)
    if k == "hiexponential":
        return b.ExponentialPrior(scale=s, hilimit=q["hi"])
    P = {"gauss": b.GaussPrior, "laplace": b.LaplacePrior, "cauchy": b.CauchyPrior}[base(k)]
    if k.startswith("circ"):
        return P(center=c, scale=s, circular=q["hi"] - q["lo"])
    return P(center=c, scale=s, limits=lim) if k.startswith("lim") else P(center=c, scale=s)


# ------------------------------------------------------------------------------------------ worlds
def gen(rng, i, tier):
    kind = rng.choice(KINDS)
    d = dict(kind=kind, n=rng.randint(6, 12), dseed=rng.randrange(1 << 30), noise=rng.choice((0.1, 0.3)), dist=rng.choice(DISTS),
             scale=rng.choice((0.5, 1.0, 2.0)), fitscale=rng.random() < 0.4, prior="uniform", weights=False, acc=False)
    if kind == "poly":
        d["deg"] = rng.randint(0, 3)
    if d["dist"] == "exponential":
        d["fitpower"] = d["fitscale"] and rng.random() < 0.5
    npar = nsw.npars(d)
    pos = {"gauss": (2,), "sine": (0,)}.get(kind, ())
    flat = PRIORS if rng.random() < 0.25 else tuple(x for x in PRIORS if not x.startswith("circ"))
    pr = [gen_prior(rng, ("jeffreys", "jeffreys", "exponential", "hiexponential") if k in pos else flat) for k in range(npar)]
    p = dict(problem=d, priors=pr, seed=rng.randrange(1, 1 << 31), frac=rng.choice((0.03, 0.08, 0.2, 0.4)), rounds=rng.choice((1, 2, 3)),
             N=rng.choice((20, 30, 45)), keep=[], cut=rng.random() < 0.25)
    r = rng.random()
    p["engine"] = "start" if r < 0.2 else rng.choice(("chord", "galilean", "gibbs", "step", "random"))
    if p["engine"] == "galilean":
        p["cut"] = False                    # mirrors on the likelihood, knows nothing of the constraint
    p["reps"] = 1500 // p["N"]
    if npar > 1 and rng.random() < 0.3:
        p["keep"] = sorted(rng.sample(range(npar), rng.randint(1, npar - 1)))
    return p


def hyp(d):
    """which hyperparameters are fitted, and between which limits (Jeffreys, power: uniform?)"""
    nh = 2 if d["dist"] == "exponential" else 1
    out = []
    for i in range(nh):
        fit = d["fitscale"] and (i == 0 or d.get("fitpower"))
        out.append(dict(fit=fit, v=(d["scale"], 1.5)[i], q=dict(k="jeffreys", c=0, s=1, lo=(0.05, 0.5)[i], hi=(50.0, 4.0)[i])))
    return out


class World:
    pass


def world(p):
    b = nsw.B()
    d = p["problem"]
    w = World()
    w.dat = nsw.data(d)
    w.model, _, _ = nsw.build_model(d)
    for k, q in enumerate(p["priors"]):
        w.model.setPrior(k, make_prior(q))
    w.ed, _, _ = nsw.build_dist(d)
    w.pb = b.ClassicProblem(model=w.model, xdata=w.dat[0], ydata=w.dat[1])
    w.np = nsw.npars(d)
    w.hyp = hyp(d)
    w.nh = len(w.hyp)
    w.fi = [k for k in range(w.np) if k not in p["keep"]] + [i - w.nh for i, h in enumerate(w.hyp) if h["fit"]]
    w.q = [(p["priors"] + [h["q"] for h in w.hyp])[k] for k in w.fi]
    w.base = np.array([float(quantile(q, 0.45)) for q in p["priors"]] + [h["v"] for h in w.hyp])
    return w


def draw(w, r, n):
    u = r.random_sample((n, len(w.fi)))
    a = np.tile(w.base, (n, 1))
    for j, k in enumerate(w.fi):
        a[:, k] = quantile(w.q[j], u[:, j])
    return a


def in_cut(p, w, a):
    u = cdf(w.q[0], a[..., w.fi[0]])
    v = cdf(w.q[-1], a[..., w.fi[-1]])
    return u + v < 1.2


def loglik(p, w, A):
    v = nsw.vec_logl(p["problem"], w.dat, A, w.nh)
    return np.where(in_cut(p, w, A), v, -math.inf) if p["cut"] else v


def exact(p, w, r, n, low, cap=600000):
    """n points of the constrained prior, by rejection"""
    out, ll, t = [], [], 0
    m = 0
    while m < n and t < cap:
        a = draw(w, r, 4000)
        t += len(a)
        v = loglik(p, w, a)
        ok = (v > -math.inf) & (v >= low)
        out.append(a[ok])
        ll.append(v[ok])
        m += int(np.sum(ok))
    return np.concatenate(out)[:n], np.concatenate(ll)[:n]


def run(p, ctx):
    from BayesicFitting.source.WalkerList import WalkerList
    from BayesicFitting.source.PhantomCollection import PhantomCollection
    b = nsw.B()
    rngseam.install(0, 0.0)
    w = world(p)
    d = p["problem"]
    r = random_state(p["seed"])
    if p["cut"]:
        ctx.fault("region shut out by the user's constraint")

        def constrain(logL, problem, allpars, low):
            return logL if in_cut(p, w, np.asarray(allpars, dtype=float)) else -math.inf
        w.ed.constrain = constrain
        w.ed.lowLhood = -math.inf
    fi = np.array(w.fi)
    ctx.state(p["engine"], d["kind"], d["dist"], tuple(sorted({q["k"] for q in w.q})), bool(p["keep"]), p["frac"], p["cut"])
    if p["engine"] == "start":
        n = 1500
        wl = WalkerList(problem=w.pb, ensemble=n, allpars=w.base.copy(), fitIndex=fi.copy())
        e = b.StartEngine(wl, w.ed, phantoms=PhantomCollection(), seed=p["seed"] % (1 << 31))
        for k in range(n):
            e.execute(k, -math.inf)
        pos = np.array([np.asarray(x.allpars, dtype=float) for x in wl])
        ref, _ = exact(p, w, r, 4000, -math.inf)
        kept(p, w, pos, ctx)
        starts(p, w, pos, ref, ctx)
        ctx.ev("start", pos.round(9).tolist()[:50])
        ctx.count("starting walkers", n)
        return
    # a likelihood threshold that leaves the wanted fraction of the prior
    pil = loglik(p, w, draw(w, r, 2000))
    pil = pil[pil > -math.inf]
    if len(pil) < 50:
        ctx.count("no region")
        return
    low = float(np.quantile(pil, 1 - p["frac"]))
    n = p["N"] * p["reps"]
    w.ed.lowLhood = low
    pts, ll = exact(p, w, r, n + 4000, low)
    if len(pts) < n + 4000:
        ctx.count("region too small")
        return
    if np.mean(ll < low + 1e-9 * (1 + abs(low))) > 0.02:
        ctx.count("threshold on a plateau")  # points at the threshold do not count for the ranges of the engines
        return
    E = {"chord": b.ChordEngine, "galilean": b.GalileanEngine, "gibbs": b.GibbsEngine, "step": b.StepEngine, "random": b.RandomEngine}[p["engine"]]
    pos, lls, moved = [], [], 0
    for rep in range(p["reps"]):
        wl = WalkerList(problem=w.pb, ensemble=p["N"], allpars=w.base.copy(), fitIndex=fi.copy())
        ph = PhantomCollection()
        for k, x in enumerate(wl):
            i = rep * p["N"] + k
            x.allpars, x.logL, x.fitIndex = pts[i].copy(), float(ll[i]), fi.copy()
            ph.storeItems(x)
        e = E(wl, w.ed, phantoms=ph, seed=int(r.randint(1 << 30)))
        for q in range(p["rounds"]):
            for k in range(p["N"]):
                moved += e.execute(k, low) > 0
        for k, x in enumerate(wl):
            a = np.asarray(x.allpars, dtype=float)
            pos.append(a)
            lls.append(float(x.logL))
    pos, lls = np.array(pos), np.array(lls)
    ctx.count("engine executions", n * p["rounds"])
    ctx.count("moves", int(moved))
    kept(p, w, pos, ctx)
    if lls.min() < low:
        ctx.fail("low", "%s left a walker at %r below the threshold %r" % (p["engine"], lls.min(), low))
    ctx.ev(p["engine"], pos.round(9).tolist()[:50], int(moved))
    if not p.get("nostat"):
        stationary(p, w, pos, lls, pts[n:], ll[n:], ctx, moved / (n * p["rounds"]))


def random_state(seed):
    return np.random.RandomState(seed % (1 << 32))


def kept(p, w, pos, ctx):
    for k in range(w.np + w.nh):
        if k not in w.fi and (k - w.np - w.nh) not in w.fi and np.any(pos[:, k] != w.base[k]):
            ctx.fail("kept", "%s changed parameter %d, which is not to be fitted" % (p["engine"], k))


def starts(p, w, pos, ref, ctx):
    """Kolmogorov-Smirnov distance to the prior (or, with a constraint, to the exact sample), dependence between parameters and in a row"""
    n = len(pos)
    U = []
    for j, k in enumerate(w.fi):
        u = cdf(w.q[j], pos[:, k])
        if not np.all((u > -1e-9) & (u < 1 + 1e-9)):
            ctx.fail("start.outside", "start of parameter %d outside its prior %r: %r" % (k, w.q[j], pos[(u < 0) | (u > 1), k][:3]))
        s = np.sort(u)
        if p["cut"]:
            t = np.sort(cdf(w.q[j], ref[:, k]))
            D = np.max(np.abs(np.searchsorted(t, s, side="right") / len(t) - np.arange(1, n + 1) / n))
            z = (D - 1.0 / n) * math.sqrt(n * len(t) / (n + len(t)))
        else:
            D = max(np.max(np.arange(1, n + 1) / n - s), np.max(s - np.arange(n) / n))
            z = D * math.sqrt(n)
        peak(ctx, "KS", z)
        if z > 4.0:
            ctx.fail("start.prior", "starts of parameter %d do not follow its prior %r: Kolmogorov-Smirnov distance %.3f of %d walkers; "
                     "deciles of the prior filled %s" % (k, w.q[j], D, n, np.histogram(u, np.linspace(0, 1, 11))[0].tolist()))
        U.append(u)
        c = abs(np.corrcoef(u[1:], u[:-1])[0, 1]) * math.sqrt(n)
        if c > 7:
            ctx.fail("start.row", "starts of parameter %d of consecutive walkers are correlated: %.3f" % (k, c / math.sqrt(n)))
    if not p["cut"]:
        for i in range(len(U)):
            for j in range(i):
                c = abs(np.corrcoef(U[i], U[j])[0, 1]) * math.sqrt(n)
                if c > 7:
                    ctx.fail("start.dependent", "starts of parameters %d and %d are correlated: %.3f" % (w.fi[i], w.fi[j], c / math.sqrt(n)))


def peak(ctx, k, v):
    """for calibration only"""
    if hasattr(ctx, "peaks"):
        ctx.peaks.append((k, v))


def stationary(p, w, pos, lls, ref, rl, ctx, mv):
    n = len(pos)
    cols = [(pos[:, k], ref[:, k], "parameter %d" % k) for k in w.fi] + [(lls, rl, "logL")]
    worst = []
    for a, c, name in cols:
        if len(np.unique(np.round(c, 7))) < 0.98 * len(c):
            continue                        # plateaus in the likelihood
        ed = np.quantile(c, [0.1, 0.3, 0.5, 0.7, 0.9])
        h = np.bincount(np.searchsorted(ed, a), minlength=6) / n
        g = np.bincount(np.searchsorted(ed, c), minlength=6) / len(c)
        for j in range(6):
            judge(p, ctx, h[j], g[j], n, "%s between its quantiles %s" %
                  (name, ("0 and 0.1", "0.1 and 0.3", "0.3 and 0.5", "0.5 and 0.7", "0.7 and 0.9", "0.9 and 1")[j]),
                  "edge" if j in (0, 5) else "middle", worst)
    med = np.median(ref, axis=0)
    for i in range(len(w.fi)):
        for j in range(i):
            a, c = w.fi[i], w.fi[j]
            q = (pos[:, a] > med[a]) * 2 + (pos[:, c] > med[c])
            g = (ref[:, a] > med[a]) * 2 + (ref[:, c] > med[c])
            h, g = np.bincount(q, minlength=4) / n, np.bincount(g, minlength=4) / len(ref)
            for t in range(4):
                if g[t] > 0.04:
                    judge(p, ctx, h[t], g[t], n, "quadrant %d of parameters %d and %d" % (t, c, a), "quadrant", worst)
    if worst:
        ctx.fail("stationary." + p["engine"], "%s engine: from the exact constrained prior (%.2f of the prior, %d walkers in ensembles of %d), after %d "
                 "rounds\n%s" % (p["engine"], p["frac"], n, p["N"], p["rounds"], "\n".join(worst[:6])))


# what remains after taking off 7 sigma, over and above the imperfection that each engine has by design (the galilean engine
# mirrors in the parameter domain, not in unit space)
LIM = dict(chord=(0.9, 1.15), gibbs=(0.9, 1.15), random=(0.8, 1.3), step=(0.7, 1.4),
           galilean=dict(edge=(0.3, 3.6), middle=(0.3, 2.2), quadrant=(0.3, 2.5)))


def judge(p, ctx, h, g, n, name, kind, worst):
    """h: found, g: expected fraction; by more than statistics (7 sigma) and more than the engines' known imperfection"""
    sig = 7 * math.sqrt(g * (1 - g) * (1.0 / n + 1.0 / 4000))
    peak(ctx, (kind, p["engine"]), (h / g, (h - sig) / g, (h + sig) / g))
    lim = LIM[p["engine"]]
    lo, hi = lim[kind] if isinstance(lim, dict) else lim
    if h - sig > hi * g or h + sig < lo * g:
        worst.append("%s: %.3f of the walkers, should be %.3f" % (name, h, g))


def shrink(p):
    import copy

    def q(**k):
        c = copy.deepcopy(p)
        c.update(k)
        return c
    if p["cut"]:
        yield q(cut=False)
    if p["keep"]:
        yield q(keep=[])
    if p["rounds"] > 1:
        yield q(rounds=1)
    for k, x in enumerate(p["priors"]):
        if x["k"] != "uniform" and p["problem"]["kind"] == "poly":
            c = q()
            c["priors"][k]["k"] = "uniform"
            yield c
