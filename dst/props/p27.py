"""Histories of queries on the sample lists of nested sampling runs, compared with a reference computed from the samples."""
import copy, math, random
import numpy as np
from .. import nsprop, nsw, fitw

RUNS = dict(quick=420, thorough=12000)
RULE = "one evaluation is one history of queries and changes on the sample list of one short run; distinct by the digest of the answers"
REAL = "the whole library: NestedSampler and all it uses, SampleList, Sample, Tools.average, models and priors"
STUBS = "user model subclass that raises at a chosen evaluation; likelihood hook where the plan bends the likelihood"
ASSUMPTIONS = ["model values of the reference are computed without the library, averages with math.fsum",
               "median and modus items are documented to be calculated once and kept: not compared after the list has been changed",
               "the maximum likelihood item is documented to be the last sample: compared until a sample is added at the end"]
STATES = "distinct (query, number of queries of that kind before, last change) met, hashed"

READS = ("parameters", "stdevs", "standardDeviations", "hypars", "stdevHypar", "stdevHypars", "scale", "stdevScale", "nuisance", "stdevNuis",
         "evidence", "maxLikelihoodParameters", "maxLikelihoodScale", "medianIndex", "medianParameters", "medianScale", "modusIndex",
         "modusParameters", "modusScale", "average", "average", "monteCarloError", "monteCarloError", "weights", "logweights", "logl",
         "parevo", "parevok", "scaleevo", "lowlogl", "maxnp", "gen", "ns.parameters", "ns.scale")
LISTS = ("ops",)


def gen(rng, i, tier):
    p = nsprop.gen(rng, i, "quick", threads=0.0, boost=0.1, keep=0.2, plateau=0.1)
    p["maxiter"] = min(p["maxiter"], rng.choice((8, 20, 30)))
    p["miniter"] = min(p["miniter"], p["maxiter"], 10)
    d = p["problem"]
    if rng.random() < 0.3:
        # an angle-like parameter: the offset of the polynomial wraps around
        d["kind"], d["deg"], d["prior"], d["dist"] = "poly", rng.choice((0, 1)), "uniform", rng.choice(("gauss", "laplace"))
        d["circ"] = rng.choice((1.5, 3.0, 6.0))
        d["weights"] = d["acc"] = False
        d["fitpower"] = False
        p.pop("keep", None)
        p["engines"] = nsw.engines_for(rng, d)
    if rng.random() < 0.2:
        p["maxsize"] = rng.choice((p["ensemble"], 12, 20))
    ops = []
    for _ in range(rng.randint(8, 45)):
        r = rng.random()
        if r < 0.74:
            ops.append([rng.choice(READS), rng.randrange(5), rng.randrange(1000)])
        elif r < 0.80:
            ops.append(["scribble", rng.choice(("average", "monteCarloError", "weights", "parevo")), rng.randrange(5)])
        elif r < 0.86:
            ops.append(["interrupt", rng.choice(("average", "monteCarloError")), rng.randrange(5), rng.randrange(1000)])
        elif r < 0.92:
            ops.append(["other", rng.choice(READS), rng.randrange(5)])
        elif r < 0.96:
            ops.append(["weed", rng.uniform(0.4, 1.1)])
        elif r < 0.98:
            ops.append(["add", rng.randrange(1000)])
        else:
            ops.append(["again", 0])
    p["ops"] = ops
    p["oseed"] = rng.randrange(1 << 30)
    return p


def shrink(p):
    for q in nsprop.shrink(p):
        yield q
    if p["problem"].get("circ"):
        q = copy.deepcopy(p)
        del q["problem"]["circ"]
        yield q


class Stop(Exception):
    pass


class Snap:
    """what the samples are"""
    def __init__(self, sl, d):
        self.d = d
        self.s = [dict(logW=float(s.logW), logL=float(s.logL), par=np.array(s.parameters, dtype=float), id=int(s.id),
                       hyp=np.array(s.hyper, dtype=float) if hasattr(s, "hyper") else None,
                       nuis=np.array(s.nuisance, dtype=float) if hasattr(s, "nuisance") else None,
                       model=s.model) for s in sl]
        self.logZ = float(sl.logZ)
        self.added = False
        self.changed = False

    def w(self):
        return [math.exp(s["logW"]) for s in self.s]

    def mom(self, vals):
        """average and standard deviation of the columns; the weights are normalised"""
        w = self.w()
        v = np.asarray(vals, dtype=float)
        av = np.array([math.fsum(a * b for a, b in zip(w, v[:, j])) for j in range(v.shape[1])])
        va = np.array([math.fsum(a * (b - c) ** 2 for a, b in zip(w, v[:, j])) for j, c in enumerate(av)])
        return av, np.sqrt(np.maximum(va, 0)), np.max(np.abs(v), axis=0) if v.shape[1] else np.zeros(0)

    def params(self):
        av, sd, mx = self.mom([s["par"] for s in self.s])
        per = [None] * len(av)
        if self.d.get("circ"):
            c = self.d["circ"]
            w = self.w()
            t = [s["par"][0] * math.pi / c for s in self.s]
            ss = math.fsum(a * math.sin(b) for a, b in zip(w, t))
            cc = math.fsum(a * math.cos(b) for a, b in zip(w, t))
            if math.hypot(ss, cc) < 1e-4:
                per[0] = "undefined"
            else:
                m = math.atan2(ss, cc)
                dev = [math.remainder(b - m, 2 * math.pi) for b in t]
                near = any(abs(abs(e) - math.pi) < 1e-7 for e in dev)
                per[0] = "edge" if near else "circular"
                av[0], sd[0] = m * c / math.pi, math.sqrt(math.fsum(a * e * e for a, e in zip(w, dev))) * c / math.pi
        return av, sd, mx, per

    def model(self, x):
        v = np.array([nsw.ref_result(self.d, x, s["model"], s["par"]) for s in self.s])
        return self.mom(v)


def xs(k, d):
    lo, hi = (0.0, 2.0) if d["kind"] == "exp" else (-1.0, 1.0)
    return np.linspace(lo, hi, (3, 7, d["n"], 12, 7)[k]) + (0.0 if k < 4 else 0.0) if k < 4 else np.linspace(hi, 0.5 * (lo + hi), 7)


def close(a, b, tol):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol))


def get(sl, what, k, n, ns, d, buf=None):
    if what in ("average", "monteCarloError"):
        x = xs(k, d)
        if buf is not None and n % 2:          # the user fills one and the same array again
            b = buf.setdefault(len(x), np.empty(len(x)))
            b[:] = x
            x = b
        return getattr(sl, what)(x)
    if what == "weights":
        return sl.getWeightEvolution()
    if what == "logweights":
        return sl.getLogWeightEvolution()
    if what == "logl":
        return sl.getLogLikelihoodEvolution()
    if what == "parevo":
        return sl.getParameterEvolution()
    if what == "parevok":
        return sl.getParameterEvolution(kpar=0)
    if what == "scaleevo":
        return sl.getScaleEvolution()
    if what == "lowlogl":
        return sl.getLowLogL()
    if what == "maxnp":
        return sl.getMaximumNumberOfParameters()
    if what == "gen":
        return sl.getGeneration()
    if what == "ns.parameters":
        return ns.samples.parameters
    if what == "ns.scale":
        return ns.samples.scale
    return getattr(sl, what)


def applicable(snap, what, w):
    d = snap.d
    ev = nsw.is_dyn(d)
    if what in ("parameters", "stdevs", "standardDeviations", "ns.parameters", "parevo") and ev:
        return False
    if snap.changed and what in ("medianIndex", "medianParameters", "medianScale", "modusIndex", "modusParameters", "modusScale"):
        return False
    if snap.added and what.startswith("maxLik"):
        return False
    if what in ("nuisance", "stdevNuis"):
        return snap.s[0]["nuis"] is not None
    if what in ("scale", "stdevScale", "maxLikelihoodScale", "medianScale", "modusScale", "ns.scale"):
        return w.nh > 0
    if what in ("hypars", "stdevHypar", "stdevHypars", "scaleevo"):
        return w.nh > 0
    if what == "parevok" and ev:
        return False
    return True


def verify(ctx, snap, w, what, k, got):
    d = snap.d

    def bad(exp):
        ctx.fail("value." + what.replace("ns.", ""), "%s%s gives %r, the samples say %r" % (what, (" at x-set %d" % k) if what in ("average", "monteCarloError") else "", got, exp))

    def near(exp, scale, f=1e-9):
        if not close(got, exp, f * (1.0 + np.asarray(scale, dtype=float))):
            bad(exp)

    n = len(snap.s)
    if what in ("parameters", "ns.parameters", "stdevs", "standardDeviations"):
        av, sd, mx, per = snap.params()
        exp = av if "param" in what else sd
        g = np.array(got, dtype=float)
        if g.shape != exp.shape:
            bad(exp)
        for j in range(len(exp)):
            if per[j] == "undefined" or (per[j] == "edge" and "param" not in what):
                continue
            if per[j] and "param" in what:
                c = d["circ"]
                if not -c - 1e-9 <= g[j] <= c + 1e-9 or abs(math.remainder(g[j] - exp[j], 2 * c)) > 1e-6 * (1 + c):
                    bad(exp)
                continue
            # a variance by subtraction of squares loses half the digits
            tol = 1e-9 * (1 + mx[j]) if "param" in what else 3e-7 * (1 + mx[j])
            if not abs(g[j] - exp[j]) <= tol:
                bad(exp)
    elif what in ("hypars", "stdevHypar", "stdevHypars", "scale", "stdevScale", "ns.scale"):
        av, sd, mx = snap.mom([s["hyp"] for s in snap.s])
        e, f = (sd, 3e-7) if "stdev" in what else (av, 1e-9)
        if "cale" in what:
            e, mx = e[0], mx[0]
        near(e, mx, f)
    elif what in ("nuisance", "stdevNuis"):
        av, sd, mx = snap.mom([s["nuis"] for s in snap.s])
        near(sd if "stdev" in what else av, mx, 3e-7 if "stdev" in what else 1e-9)
    elif what in ("average", "monteCarloError"):
        av, sd, mx = snap.model(xs(k, d))
        if not np.all(np.isfinite(mx)):
            return
        near(av if what == "average" else sd, mx, 1e-7 if what == "average" else 1e-6)
    elif what == "evidence":
        near(snap.logZ / math.log(10.0), abs(snap.logZ))
    elif what.startswith("maxLik"):
        top = max(s["logL"] for s in snap.s)
        best = [s["par"] if "Param" in what else s["hyp"][0] for s in snap.s if s["logL"] == top]
        if not any(np.array_equal(got, b) for b in best):
            bad(best[0])
    elif what.startswith("median"):
        cum = 0.0
        ok = []
        for i, v in enumerate(snap.w()):
            if cum < 0.5 + 1e-9 and cum + v > 0.5 - 1e-9:
                ok.append(i)
            cum += v
        item(snap, what, got, ok, bad)
    elif what.startswith("modus"):
        top = max(s["logW"] for s in snap.s)
        item(snap, what, got, [i for i, s in enumerate(snap.s) if s["logW"] >= top], bad)
    elif what == "weights":
        near(snap.w(), 1.0, 1e-12)
    elif what == "logweights":
        exact(got, [s["logW"] for s in snap.s], bad)
    elif what == "logl":
        exact(got, [s["logL"] for s in snap.s], bad)
    elif what == "parevo":
        exact(got, [s["par"] for s in snap.s], bad)
    elif what == "parevok":
        exact(got, [s["par"][0] for s in snap.s], bad)
    elif what == "scaleevo":
        exact(got, [s["hyp"] for s in snap.s], bad)
    elif what == "lowlogl":
        low = min(s["logL"] for s in snap.s)
        if got[0] != low or snap.s[got[1]]["logL"] != low:
            bad(low)
    elif what == "maxnp":
        exact(got, max(len(s["par"]) for s in snap.s), bad)
    elif what == "gen":
        exact(got, [s["id"] for s in snap.s], bad)


def exact(got, exp, bad):
    if not np.array_equal(np.asarray(got), np.asarray(exp)):
        bad(exp)


def item(snap, what, got, ok, bad):
    if what.endswith("Index"):
        vals = ok
    elif what.endswith("Scale"):
        vals = [snap.s[i]["hyp"][0] for i in ok]
    else:
        vals = [snap.s[i]["par"] for i in ok]
    if not any(np.array_equal(got, v) for v in vals):
        bad(vals)


def build(p, ctx, seed=None):
    d = p["problem"]
    kw = {}
    if p.get("lik"):
        fn = nsprop.lik_fn(p["lik"], d)

        def dist(e):
            e.constrain = fn
            return e
        kw["dist"] = dist
        ctx.fault("likelihood " + p["lik"]["kind"])
    q = p if seed is None else dict(p, seed=seed, maxiter=6, miniter=3)
    m = None
    if d.get("circ"):
        b = nsw.B()
        m, lo, hi = nsw.build_model(d)
        pri = [b.UniformPrior(limits=[-d["circ"], d["circ"]], circular=True)]
        for i in range(1, len(lo)):
            pri.append(b.UniformPrior(limits=[lo[i], hi[i]]))
        for i, z in enumerate(pri):
            m.setPrior(i, z)
    return nsw.build(q, model=m, **kw)


def run(p, ctx):
    nsprop.setup(p, ctx)
    d = p["problem"]
    w = build(p, ctx)
    try:
        w.ns.sample()
    except RuntimeError as e:
        if "valid starting" in str(e) and w.ns.iteration == 0 and (d["dist"] in ("poisson", "bernoulli") or p.get("lik")):
            ctx.count("no start")
            return
        raise
    sl = w.ns.samples
    snap = Snap(sl, d)
    ctx.count("samples", len(sl))
    other = None
    seen = {}
    ns = {}
    last = "fresh"
    buf = {}
    for op in p["ops"]:
        what = op[0]
        if what in READS:
            if not applicable(snap, what, w):
                continue
            k = op[1]
            got = get(sl, what, k, op[2], w.ns, d, buf)
            verify(ctx, snap, w, what, k, got)
            key = (what, k if what in ("average", "monteCarloError") else 0)
            rep = repr(np.asarray(got, dtype=float).tolist() if not isinstance(got, tuple) else [float(z) for z in got])
            if seen.setdefault(key, rep) != rep:
                ctx.fail("repeat", "%s was %s at first, later %s" % (what, seen[key], rep))
            ns[what] = ns.get(what, 0) + 1
            ctx.state(what, min(ns[what], 4), last)
            ctx.ev(what, k, rep)
            ctx.count("reads")
        elif what == "scribble":
            if not applicable(snap, op[1], w):
                continue
            got = get(sl, op[1], op[2], 0, w.ns, d)
            verify(ctx, snap, w, op[1], op[2], got)
            np.asarray(got)[...] = 777.0
            ctx.fault("answer overwritten by the user")
            last = "scribble"
        elif what == "interrupt":
            k = 1 + op[3] % max(1, len(sl))
            m = sl[0].model

            def hook(n, kind, par, v):
                if n == k:
                    raise Stop()
                return v
            fitw.seam(m, hook)
            try:
                get(sl, op[1], op[2], 0, w.ns, d)
            except Stop:
                ctx.fault("model raised during " + op[1])
                last = "interrupt"
            finally:
                fitw.unseam(m)
        elif what == "other":
            if other is None:
                w2 = build(p, ctx, seed=p["seed"] + 17)
                try:
                    w2.ns.sample()
                except RuntimeError as e:
                    if "valid starting" not in str(e):
                        raise
                    continue
                other = w2, Snap(w2.ns.samples, d)
            w2, s2 = other
            if applicable(s2, op[1], w2):
                verify(ctx, s2, w2, op[1], op[2], get(w2.ns.samples, op[1], op[2], 0, w2.ns, d))
                ctx.count("reads of another list")
                last = "other"
        elif what == "weed":
            n = max(2, int(op[1] * len(sl)))
            if p.get("lik") and any(not math.isfinite(s["logL"]) for s in snap.s):
                continue
            if n < len(sl):
                keep = sorted(range(len(sl)), key=lambda i: (snap.s[i]["logW"], i))[len(sl) - n:]
                sl.weed(n)
                cut = sorted((snap.s[i]["logW"] for i in keep), reverse=True)
                if sorted((float(s.logW) for s in sl), reverse=True) != cut:
                    ctx.fail("weed", "weed( %d ) did not keep the samples of highest weight" % n)
                ids = set(int(s.id) for s in sl)
                snap.s = [s for s in snap.s if s["id"] in ids]
                if len(snap.s) != len(sl):
                    return                      # identities not unique after several copies: cannot be followed
                snap.changed = True
                if max(s["logL"] for s in snap.s) > snap.s[-1]["logL"]:
                    snap.added = True
            renorm(ctx, sl, snap)
            seen, last = {}, "weed"
            ctx.fault("samples weeded")
        elif what == "add":
            sl.add(sl[op[1] % len(sl)].copy())
            s = sl[-1]
            c = dict(snap.s[op[1] % len(snap.s)])
            c["id"] = int(s.id)
            snap.s.append(c)
            snap.added = snap.changed = True
            renorm(ctx, sl, snap)
            seen, last = {}, "add"
            ctx.fault("sample added")
        elif what == "again":
            # the sampler goes on to be used: its old list stays as it is
            w2 = build(p, ctx, seed=p["seed"] + 18)
            try:
                w2.ns.sample()
            except RuntimeError as e:
                if "valid starting" not in str(e):
                    raise
            last = "again"
    now = Snap(sl, d)
    for a, b_ in zip(now.s, snap.s):
        if a["logL"] != b_["logL"] or abs(a["logW"] - b_["logW"]) > 1e-9 or not np.array_equal(a["par"], b_["par"]) or not np.array_equal(a["hyp"], b_["hyp"]):
            ctx.fail("changed", "reading changed a sample: %r became %r" % (b_, a))
    if len(now.s) != len(snap.s) or now.logZ != snap.logZ:
        ctx.fail("changed", "reading changed the list")


def renorm(ctx, sl, snap):
    sl.normalize()
    z = [s["logW"] for s in snap.s]
    mx = max(z)
    t = mx + math.log(math.fsum(math.exp(v - mx) for v in z))
    for s in snap.s:
        s["logW"] -= t
    got = [float(s.logW) for s in sl]
    if not np.allclose(got, [s["logW"] for s in snap.s], rtol=1e-9, atol=1e-9):
        ctx.fail("normalize", "log weights after normalising are %s, expected %s" % (got, [s["logW"] for s in snap.s]))
    for s, g in zip(snap.s, got):
        s["logW"] = g
