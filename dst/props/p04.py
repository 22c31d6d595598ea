import math
import numpy as np
from .. import nsprop, nsw, obs
from ..nsprop import REAL, STUBS, ASSUMPTIONS, STATES, shrink

RUNS = dict(quick=300, thorough=6000)
RULE = "one evaluation is one whole nested sampling run; distinct by the digest of all recorded log-likelihoods"


def gen(rng, i, tier):
    p = nsprop.gen(rng, i, tier)
    if rng.random() < 0.3:
        p["discard"] = rng.choice((2, 3, 5))
        p["discard"] = min(p["discard"], p["ensemble"] - 2)
    if rng.random() < 0.2 and not p.get("threads"):
        p["maxsize"] = rng.choice((2, 5, p["ensemble"], 2 * p["ensemble"], 5 * p["ensemble"]))
    return p


def reference(L, N, D):
    """prior mass and contribution of every point, and the final evidence and information"""
    left = 0.0
    out = []
    I = (len(L) - N) // D
    k = 0
    for it in range(I + 1):
        n = D if it < I else N
        for j in range(n):
            out.append(left + math.log(1 - math.exp(-1.0 / (N - j))) + L[k])
            left -= 1.0 / (N - j)
            k += 1
    out = np.array(out)
    m = np.max(out)
    logZ = m + math.log(np.sum(np.exp(out - m)))
    w = np.exp(out - logZ)
    info = float(np.sum(np.where(w > 0, w * np.array(L), 0.0)) - logZ)
    return out, logZ, info, w


def close(a, b, tol=1e-8, abst=1e-8):
    return abs(a - b) <= abst + tol * max(abs(a), abs(b))


def verify(ctx, w, D, tag=""):
    ns = w.ns
    N = w.p["ensemble"]
    smp = list(ns.samples)
    L = [float(s.logL) for s in smp]
    if len(L) < N or (len(L) - N) % D:
        ctx.fail("count", "%d samples are not I*%d + %d" % (len(L), D, N))
    out, logZ, info, wt = reference(L, N, D)
    ctx.check(close(ns.logZ, logZ), "logZ", lambda: tag + "logZ %r, but the contributions of the samples add up to %r" % (float(ns.logZ), logZ))
    ctx.check(close(ns.info, info, abst=1e-6, tol=1e-6), "info",
              lambda: tag + "information %r, but weighted mean logL - logZ is %r" % (float(ns.info), info))
    ctx.check(close(ns.samples.logZ, logZ), "list.logZ", lambda: tag + "evidence in the sample list %r, not %r" % (ns.samples.logZ, logZ))
    ctx.check(close(ns.samples.info, info, abst=1e-6, tol=1e-6), "list.info", lambda: tag + "information in the sample list %r, not %r" % (ns.samples.info, info))
    ctx.check(close(ns.evidence, logZ / math.log(10)) and close(ns.samples.evidence, logZ / math.log(10)) and close(w.evidence, logZ / math.log(10)),
              "evidence", lambda: tag + "evidence %r (returned), %r (sampler), %r (samples), not %r" %
              (w.evidence, ns.evidence, ns.samples.evidence, logZ / math.log(10)))
    ctx.check(close(ns.logZprecision, math.sqrt(max(info, 0) / N), abst=1e-5, tol=1e-5), "precision",
              lambda: tag + "precision %r, not sqrt( %r / %d )" % (ns.logZprecision, info, N))
    sw = sum(math.exp(s.logW) for s in smp)
    ctx.check(close(sw, 1.0), "weights.sum", lambda: tag + "weights add up to %r" % sw)
    for i, s in enumerate(smp):
        if not close(math.exp(s.logW), wt[i], abst=1e-10):
            ctx.fail("weight", tag + "weight of sample %d is %r, should be %r" % (i, math.exp(s.logW), wt[i]))
    moments(ctx, w, smp, wt, tag)
    return logZ, info


def moments(ctx, w, smp, wt, tag=""):
    ns = w.ns
    if len(set(len(s.parameters) for s in smp)) == 1:
        P = np.array([np.asarray(s.parameters, dtype=float) for s in smp])
        av = wt @ P
        sd = np.sqrt(np.maximum(wt @ (P * P) - av * av, 0))
        scale = 1 + np.max(np.abs(P), axis=0)
        for nm, got, ref in (("parameters", ns.parameters, av), ("samples.parameters", ns.samples.parameters, av)):
            got = np.asarray(got, dtype=float)
            if got.shape != ref.shape or not np.all(np.abs(got - ref) <= 1e-9 * scale):
                ctx.fail("moments." + nm, tag + "%s %s, weighted mean of the samples %s" % (nm, got, ref))
        for nm, got, ref in (("stdevs", ns.stdevs, sd), ("samples.stdevs", ns.samples.stdevs, sd)):
            got = np.asarray(got, dtype=float)
            if got.shape != ref.shape or not np.all(np.abs(got - ref) <= 1e-6 * scale):
                ctx.fail("moments." + nm, tag + "%s %s, weighted standard deviation of the samples %s" % (nm, got, ref))
        m = ns.model
        if m is not None and not nsw.is_dyn(w.d):
            if not np.all(np.abs(np.asarray(m.parameters) - av) <= 1e-9 * scale):
                ctx.fail("moments.model", tag + "parameters in the model %s, weighted mean %s" % (m.parameters, av))
    if w.nh:
        H = np.array([np.asarray(s.hypars, dtype=float) for s in smp])
        av = wt @ H
        sd = np.sqrt(np.maximum(wt @ (H * H) - av * av, 0))
        scale = 1 + np.max(np.abs(H), axis=0)
        for nm, got, ref, t in (("hypars", ns.hypars, av, 1e-9), ("stdevHypars", ns.stdevHypars, sd, 1e-6),
                                ("samples.hypars", ns.samples.hypars, av, 1e-9), ("samples.stdevHypars", ns.samples.stdevHypars, sd, 1e-6)):
            got = np.asarray(got, dtype=float)
            if got.shape != ref.shape or not np.all(np.abs(got - ref) <= t * scale):
                ctx.fail("moments." + nm, tag + "%s %s, weighted from the samples %s" % (nm, got, ref))
        ctx.check(close(ns.scale, av[0]) and close(ns.stdevScale, sd[0], abst=1e-6), "moments.scale", tag + "scale is not the first hyperparameter")


def run(p, ctx):
    q = {k: v for k, v in p.items() if k != "maxsize"}
    w = nsprop.run(q, ctx, ())
    verify(ctx, w, p.get("discard", 1))
    if "maxsize" in p:
        limited(ctx, w, nsprop.run(p, ctx, ()))


def limited(ctx, w0, w):
    """with a limited sample list the weights are those of the same samples, normalised within the list"""
    full = iter([(float(s.logL), float(s.logW)) for s in w0.ns.samples])
    smp = list(w.ns.samples)
    lw = []
    for s in smp:
        for l, g in full:
            if l == float(s.logL):
                lw.append(g)
                break
        else:
            return ctx.count("limited list not a sublist (see P05)")
    ctx.count("limited lists")
    wt = np.exp(np.array(lw) - max(lw))
    wt /= wt.sum()
    for i, s in enumerate(smp):
        if not close(math.exp(s.logW), wt[i], abst=1e-10):
            ctx.fail("limited.weight", "weight of sample %d of %d in the limited list is %r, should be %r" % (i, len(smp), math.exp(s.logW), wt[i]))
    moments(ctx, w, smp, wt, "limited list: ")
