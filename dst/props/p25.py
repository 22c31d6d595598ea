"""P25: evidence, posterior means and standard deviations of nested sampling against numerical integration, over batches of problems."""
import math, random
import numpy as np
from .. import nsw, rngseam, sched
from . import p24

RUNS = dict(quick=8, thorough=240)
CPU = 300                  # seconds one batch may take
RULE = "one evaluation is a batch of whole nested sampling runs, each of another problem, seed, engines, ensemble and discard number; distinct by the digest of the evidences"
STATES = "model, error distribution, priors of the fitted parameters, kept parameters, discard number, ensemble and engines of a run"
REAL = ["NestedSampler", "Explorer", "engines", "SampleList", "models", "priors", "error distributions"]
STUBS = ["none"]
ASSUMPTIONS = ["statistical: a batch is judged on average offsets, with thresholds beyond which no right sampler comes", "StepEngine on its own is left out: its steps are too small to forget the walker a point is copied from (as MCMC theory says), which makes evidences 1 precision too high",
               "one or two parameters are fitted, so that the truth is known by numerical integration (own likelihood and own priors)"]
MIN_EVENTS = 1
K = dict(quick=120, thorough=150)


def gen_one(rng):
    while True:
        kind = rng.choice(("poly", "poly", "poly", "exp", "gauss", "sine"))
        d = dict(kind=kind, n=rng.randint(5, 10), dseed=rng.randrange(1 << 30), noise=rng.choice((0.1, 0.3)), dist=rng.choice(p24.DISTS),
                 scale=rng.choice((0.3, 0.6, 1.0)), fitscale=rng.random() < 0.4, prior="uniform", weights=rng.random() < 0.2, acc=False)
        if kind == "poly":
            d["deg"] = rng.randint(0, 2)
        if d["dist"] == "cauchy":
            d["weights"] = False
        npar = nsw.npars(d)
        pos = {"gauss": (2,), "sine": (0,)}.get(kind, ())
        flat = tuple(x for x in p24.PRIORS if not x.startswith("circ") and x != "cauchy")
        pr = [p24.gen_prior(rng, ("jeffreys", "hiexponential") if k in pos else flat) for k in range(npar)]
        nf = 2 - d["fitscale"]
        keep = []
        if npar > nf:
            fitk = rng.sample([k for k in range(npar) if k not in pos], nf)
            keep = [k for k in range(npar) if k not in fitk]
        return dict(problem=d, priors=pr, keep=keep, seed=rng.randrange(1, 1 << 31), cut=False, engine="x")


ENGINES = (["galilean", "chord"], ["galilean", "chord"], ["chord"], ["gibbs"], ["galilean"], ["random", "chord"], ["gibbs", "galilean"], ["chord", "gibbs"])


def gen(rng, i, tier):
    ws = []
    for k in range(K.get(tier, 60)):
        q = gen_one(rng)
        # (galilean, chord) is what one gets by default
        q.update(engines=rng.choice(ENGINES), N=rng.choice((25, 40)), discard=rng.choice((1, 1, 2, 5)))
        ws.append(q)
    return dict(worlds=ws)


def groups(q):
    """what a systematic offset could depend on"""
    d = q["problem"]
    g = [("all",), ("discard", q["discard"]), ("ensemble", q["N"]), ("engines",) + tuple(q["engines"]), ("model", d["kind"]), ("distribution", d["dist"]),
         ("fitted scale", bool(d["fitscale"])), ("kept parameters", bool(q["keep"])), ("weights", bool(d["weights"]))]
    return g + [("prior", x) for x in sorted(set(q["priors"][k]["k"] for k in range(len(q["priors"])) if k not in q["keep"]))]


def truth(q, w):
    """log evidence, information, means and variances of the fitted parameters"""
    nd = len(w.fi)
    lo, hi = np.zeros(nd), np.ones(nd)
    m = 4000 if nd == 1 else 130
    for it in range(3):
        g = [lo[j] + (hi[j] - lo[j]) * (np.arange(m) + 0.5) / m for j in range(nd)]
        G = np.meshgrid(*g, indexing="ij")
        U = np.stack([x.ravel() for x in G], axis=1)
        A = np.tile(w.base, (len(U), 1))
        for j, k in enumerate(w.fi):
            A[:, k] = p24.quantile(w.q[j], U[:, j])
        L = nsw.vec_logl(q["problem"], w.dat, A, w.nh)
        top = L.max()
        ok = L > top - 25
        cell = (hi - lo) / m
        if it < 2:
            a, b = U[ok].min(axis=0) - 1.5 * cell, U[ok].max(axis=0) + 1.5 * cell
            lo, hi = np.maximum(lo, a), np.minimum(hi, b)
            if it == 0 and nd == 2:
                m = 200
    P = np.exp(L - top)
    Z = P.sum() * np.prod(cell)
    lz = top + math.log(Z)
    P /= P.sum()
    X = A[:, w.fi]
    mean = P @ X
    sd = np.sqrt(P @ (X - mean) ** 2)
    H = float(np.sum(np.where(P > 0, P * (L - lz), 0)))
    return lz, H, mean, sd, int(np.sum(ok))


def run(p, ctx):
    b = nsw.B()
    rngseam.install(0, 0.0)
    rec = []
    for q in p["worlds"]:
        w = p24.world(q)
        lz, H, mean, sd, cells = truth(q, w)
        if cells < 200 or H > 9:
            ctx.count("too narrow for the integration")
            continue
        keep = {k: float(w.base[k]) for k in q["keep"]}
        ns = b.NestedSampler(w.dat[0], w.model, w.dat[1], weights=w.dat[2], distribution=w.ed, ensemble=q["N"], discard=q["discard"],
                             seed=q["seed"] % (1 << 31), engines=list(q["engines"]), keep=keep or None, verbose=0, threads=False)
        ns.sample()
        # the precision it states is sqrt( H / N ); below 0.06 the steps of the integration by samples count too
        sig = max(math.sqrt(max(H, 0.0) / q["N"]), 0.06)
        z = (float(ns.logZ) - lz) / sig
        sl = ns.samples
        ap = np.array([np.asarray(s.allpars, dtype=float) for s in sl])[:, w.fi]
        wt = np.array([float(s.logW) for s in sl])
        wt = np.exp(wt - wt.max())
        wt /= wt.sum()
        mu = wt @ ap
        sg = np.sqrt(wt @ (ap - mu) ** 2)
        own = [float(ns.parameters[k] if k >= 0 else ns.hypars[k + w.nh]) for k in w.fi]
        if not np.allclose(own, mu, rtol=1e-5, atol=1e-7):
            ctx.fail("mean", "parameters of the sampler %s are not the weighted mean %s of its samples" % (own, mu.tolist()))
        rec.append((q, z, (mu - mean) / sd, np.log(np.maximum(sg, 1e-300) / sd), lz, float(ns.logZ)))
        ctx.state(q["problem"]["kind"], q["problem"]["dist"], tuple(x["k"] for x in w.q), bool(keep), q["discard"], q["N"], q["engines"])
        ctx.ev(round(float(ns.logZ), 9))
        ctx.count("nested sampling runs")
        ctx.count("iterations", int(ns.iteration))
    if hasattr(ctx, "peaks"):
        ctx.peaks.append(rec)
        return
    for g, what, val, lim, n in judge(rec):
        worst = sorted(rec, key=lambda r: -abs(r[1]) if g in groups(r[0]) else 0)[:3]
        ctx.fail(what, "%s over %d runs with %s is %.3f, limit %.3f; e.g. %s" % (what, n, " ".join(str(x) for x in g), val, lim, "; ".join(
            "%s %s: logZ %.3f should be %.3f" % (r[0]["problem"]["kind"], r[0]["problem"]["dist"], r[5], r[4]) for r in worst)))


def stats(rec):
    """group -> number of runs and the average offsets"""
    by = {}
    for r in rec:
        for g in groups(r[0]):
            by.setdefault(g, []).append(r)
    for g in sorted(by, key=str):
        rs = by[g]
        z = np.clip([r[1] for r in rs], -5, 5)
        m = np.clip(np.concatenate([r[2] for r in rs]), -1, 1)
        s = np.clip(np.concatenate([r[3] for r in rs]), -1, 1)
        yield g, len(rs), float(z.mean()), float(np.sqrt(np.mean(m ** 2))), float(s.mean())


def judge(rec):
    for g, n, z, m, s in stats(rec):
        for what, val, (base, width) in (("offset of the evidence", z, LIMZ), ("scatter of the means", m, LIMM), ("offset of the deviations", s, LIMS)):
            lim = base.get(g[0], base[""]) + width / math.sqrt(n)
            if n >= 6 and abs(val) > lim:
                yield g, what, val, lim, n


# calibrated on 1500 runs: evidence 0.00 +- 1.11 precisions, engines differ by up to 0.23;
# means scatter by 0.115 deviations; deviations off by -1 +- 9 %
LIMZ = (dict([("all", 0.1), ("engines", 0.3), ("", 0.2)]), 6.3)
LIMM = ({"": 0.18}, 1.0)
LIMS = ({"": 0.06}, 0.8)


def shrink(p):
    by = {}
    for k, q in enumerate(p["worlds"]):
        for g in groups(q):
            by.setdefault(g, []).append(k)
    for g in sorted(by, key=lambda g: (len(by[g]), str(g))):
        if 6 <= len(by[g]) < len(p["worlds"]):
            yield dict(worlds=[p["worlds"][k] for k in by[g]])
