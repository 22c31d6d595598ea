"""Observation of a nested sampling run from the outside, through public seams: an extra engine (the Spy)
that moves nothing and looks at the live points, and the attributes of the sampler when it is done."""
import math
import numpy as np
from . import nsw, core


def allp(obj):
    return np.asarray(obj.allpars, dtype=float).copy()


class Observer:
    """checks: any of  constraint logl domain ids alias"""
    def __init__(self, ctx, w, checks, every=1, deep=7):
        self.ctx, self.w, self.checks = ctx, w, set(checks)
        self.iters = []                # iterations seen, in order
        self.lows = {}                 # iteration -> threshold
        self.snap = {}                 # sample index -> snapshot
        self.last = None
        self.deep = deep
        self.nspy = 0
        self.phantom_sampler = False
        self.seen = {}                 # phantoms checked already

    # called by the spy engine
    def spy(self, eng, kw, low, iteration):
        ctx, w = self.ctx, self.w
        self.nspy += 1
        wl = eng.walkers
        ctx.count("spied")
        first = iteration not in self.lows
        if first:
            self.iters.append(iteration)
            self.lows[iteration] = float(low)
            ctx.state(w.d["kind"], w.d["dist"], len(wl), [int(x.problem.model.npars) for x in wl][:6] if nsw.is_dyn(w.d) else 0)
        if "constraint" in self.checks:
            if float(low) > -1e300:
                for i, x in enumerate(wl):
                    if not (x.logL >= low):
                        ctx.fail_now("live.below", "iteration %d, while walker %d is explored: live point %d has logL %r below the threshold %r"
                                     % (iteration, kw, i, float(x.logL), float(low)))
            if first and hasattr(w, "ns") and len(w.ns.samples) and float(low) > -1e300:
                mx = max(float(s.logL) for s in w.ns.samples)
                if not (mx <= low):
                    ctx.fail_now("discard.above", "iteration %d: a recorded sample has logL %r above the threshold %r" % (iteration, mx, float(low)))
                if self.last is not None and self.last > low:
                    ctx.fail_now("threshold.drops", "iteration %d: threshold falls from %r to %r" % (iteration, self.last, float(low)))
                self.last = float(low)
        if "ids" in self.checks and not self.phantom_sampler:
            if len(wl) != w.p["ensemble"]:
                ctx.fail_now("ensemble.size", "iteration %d: %d live points, %d wanted" % (iteration, len(wl), w.p["ensemble"]))
            ids = [int(x.id) for x in wl]
            if len(set(ids)) != len(ids):
                ctx.fail_now("ensemble.ids", "iteration %d: identities of the live points are not distinct: %s" % (iteration, ids))
        if first:
            deep = (len(self.iters) % self.deep == 1)
            if "logl" in self.checks and deep:
                for i, x in enumerate(wl):
                    nsw.check_point(ctx, w, x.problem.model, x.allpars, x.logL, "live")
                    ctx.count("points")
            if "domain" in self.checks and deep:
                for x in wl:
                    nsw.check_domain(ctx, w, x.allpars, "live")
                    ctx.count("points")
            if ("logl" in self.checks or "domain" in self.checks) and hasattr(w, "ns"):
                self.phantoms()
            if "alias" in self.checks and hasattr(w, "ns"):
                for s in w.ns.samples:
                    if id(s) not in self.snap:
                        self.snap[id(s)] = (s, self.freeze(s))

    def phantoms(self):
        """those stored since the last time"""
        ctx, w = self.ctx, self.w
        now = {}
        for pl in nsw.phantom_lists(w.ns):
            for x in pl:
                if id(x) not in self.seen:
                    if "logl" in self.checks:
                        nsw.check_point(ctx, w, x.problem.model, x.allpars, x.logL, "phantom")
                    if "domain" in self.checks:
                        nsw.check_domain(ctx, w, x.allpars, "phantom")
                    ctx.count("points")
                now[id(x)] = x
        self.seen = now

    def freeze(self, s):
        par = np.asarray(s.parameters)[: int(s.model.npars)]
        f = nsw.ref_result(self.w.d, self.w.x0, s.model, par)
        return (allp(s).tobytes(), float(s.logL), int(s.id), int(s.parent), int(s.start), int(s.model.npars), np.asarray(f).tobytes(),
                np.asarray(s.model.result(self.w.x0, par)).tobytes(),
                None if not hasattr(s.model, "knots") else np.asarray(s.model.knots).tobytes())

    # after the run
    def final(self):
        ctx, w = self.ctx, self.w
        ns = w.ns
        smp = ns.samples
        for s in smp:
            ctx.ev(round(float(s.logL), 6))
        if "constraint" in self.checks:
            L = [float(s.logL) for s in smp]
            for i in range(1, len(L)):
                if L[i] < L[i - 1]:
                    ctx.fail("samples.order", "recorded log-likelihood falls at sample %d of %d: %r after %r" % (i, len(L), L[i], L[i - 1]))
        if "logl" in self.checks:
            for s in smp:
                nsw.check_point(ctx, w, s.model, s.allpars, s.logL, "sample")
                ctx.count("points")
            for x in ns.walkers:
                nsw.check_point(ctx, w, x.problem.model, x.allpars, x.logL, "walker")
            for pl in nsw.phantom_lists(ns):
                for x in pl:
                    nsw.check_point(ctx, w, x.problem.model, x.allpars, x.logL, "phantom")
                    ctx.count("points")
        if "domain" in self.checks:
            for s in smp:
                nsw.check_domain(ctx, w, s.allpars, "sample")
                ctx.count("points")
            for x in ns.walkers:
                nsw.check_domain(ctx, w, x.allpars, "walker")
            for pl in nsw.phantom_lists(ns):
                for x in pl:
                    nsw.check_domain(ctx, w, x.allpars, "phantom")
                    ctx.count("points")
        if "alias" in self.checks:
            for s, f in list(self.snap.values()):
                g = self.freeze(s)
                names = ("parameters", "logL", "id", "parent", "start", "npars", "model result", "model result", "knots")
                for a, b, n in zip(f, g, names):
                    if a != b:
                        ctx.fail("sample.altered", "sample %d was altered after it was recorded: %s" % (s.id, n))


def run_observed(p, ctx, checks, lik=None, **kw):
    """build, run and observe; returns the workload"""
    holder = {}

    def see(eng, k, low, it):
        holder["obs"].spy(eng, k, low, it)
    spy = nsw.make_spy(ctx, see)(None, None)
    w = nsw.build(p, extra=[spy], **kw)
    w.lik = lik
    w.obs = holder["obs"] = Observer(ctx, w, checks)
    try:
        w.evidence = w.ns.sample()
    except RuntimeError as e:
        # a likelihood that vanishes in most of the prior: not finding a start is an end allowed
        if "valid starting" in str(e) and w.d["dist"] in ("poisson", "bernoulli") and w.ns.iteration == 0:
            raise core.Expected("no valid start")
        raise
    if hasattr(ctx, "rng"):
        ctx.count("draws", ctx.rng.draws)
        ctx.fault("extreme draws", ctx.rng.bugs)
    ctx.count("iterations", int(w.ns.iteration))
    ctx.count("evaluations", int(w.ns.distribution.ncalls))
    w.obs.final()
    return w
