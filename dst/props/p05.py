import math
import numpy as np
from .. import nsprop, nsw, obs
from ..nsprop import REAL, STUBS, ASSUMPTIONS, STATES, shrink

RUNS = dict(quick=260, thorough=5000)
RULE = "one evaluation is one whole nested sampling run (with a maximum size: two); distinct by the digest of all recorded log-likelihoods"


def gen(rng, i, tier):
    p = nsprop.gen(rng, i, tier)
    p["discard"] = min(rng.choice((1, 1, 2, 3, 4)), p["ensemble"] - 2)
    if rng.random() < 0.35 and not p.get("threads"):
        p["maxsize"] = rng.choice((1, 3, p["ensemble"] - 1, p["ensemble"] + 2, 3 * p["ensemble"], 500))
    return p


def key(s):
    return (float(s.logL),) + tuple(float(v) for v in np.asarray(s.allpars, dtype=float))


def count(ctx, w, D):
    ns = w.ns
    N = w.p["ensemble"]
    I = int(ns.iteration)
    smp = list(ns.samples)
    ctx.check(len(smp) == I * D + N, "count", lambda: "%d samples after %d iterations with %d discards and %d walkers" % (len(smp), I, D, N))
    ids = [int(s.id) for s in smp]
    ctx.check(ids == list(range(len(smp))), "sample.ids", lambda: "identities of the samples are not consecutive: %s" % ids[:50])
    ctx.check(len(ns.walkers) == N, "final.size", lambda: "%d walkers at the end, not %d" % (len(ns.walkers), N))
    wid = sorted(int(x.id) for x in ns.walkers)
    ctx.check(wid == list(range(N)), "walker.ids", lambda: "identities of the walkers at the end: %s" % wid)
    fin = sorted(key(x) for x in ns.walkers)
    got = sorted(key(s) for s in smp[-N:])
    ctx.check(fin == got, "final.points", "the last %d samples are not the final live points, each once" % N)
    # a walker is a live point at one place: between two recordings it must have been started anew
    last = {}
    for k, s in enumerate(smp):
        p = int(s.parent)
        ctx.check(0 <= p < N, "sample.parent", lambda: "sample %d comes from walker %d" % (k, p))


def run(p, ctx):
    D = p.get("discard", 1)
    if not p.get("maxsize"):
        w = nsprop.run(p, ctx, ("ids",))
        count(ctx, w, D)
        return
    q = dict(p)
    del q["maxsize"]
    w0 = nsprop.run(q, ctx, ("ids",))
    count(ctx, w0, D)
    full = [(key(s), float(s.logW)) for s in w0.ns.samples]
    w = nsprop.run(p, ctx, ("ids",))
    ctx.count("weeded runs")
    got = [(key(s), float(s.logW)) for s in w.ns.samples]
    M = p["maxsize"]
    ids = [int(s.id) for s in w.ns.samples]
    ctx.check(len(set(ids)) == len(ids), "maxsize.ids", lambda: "with maximum size %d, samples share identities: %s" % (M, ids[:50]))
    ctx.check(len(got) == min(M, len(full)), "maxsize", lambda: "%d samples kept with maximum size %d (%d without)" % (len(got), M, len(full)))
    ctx.check(abs(float(w.ns.logZ) - float(w0.ns.logZ)) < 1e-9 * (1 + abs(float(w0.ns.logZ))), "maxsize.logZ",
              lambda: "evidence %r with maximum size %d, %r without" % (float(w.ns.logZ), M, float(w0.ns.logZ)))
    it = iter(full)
    kept, dropped = [], []
    for g in got:
        for f in it:
            if f[0] == g[0]:
                kept.append(f[1])
                break
            dropped.append(f[1])
        else:
            ctx.fail("maxsize.alien", "a sample of the limited list is not one of the unlimited run, in order")
    dropped += [f[1] for f in it]
    if kept and dropped:
        ctx.check(min(kept) >= max(dropped) - 1e-9, "maxsize.weights",
                  lambda: "a sample of log weight %r was left out while one of %r was kept" % (max(dropped), min(kept)))
    sw = sum(math.exp(g[1]) for g in got)
    ctx.check(abs(sw - 1) < 1e-8, "maxsize.norm", lambda: "weights of the limited list add up to %r" % sw)
