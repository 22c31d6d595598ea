"""Phantom sampler runs, watched after every iteration through the restart seam and at every exploration by the spy."""
import math
import numpy as np
from .. import nsprop, nsw, obs, core
from ..nsprop import REAL, STUBS, ASSUMPTIONS, STATES
from . import p04

RUNS = dict(quick=110, thorough=5000)
RULE = "one evaluation is one whole phantom sampler run; distinct by the digest of all recorded log-likelihoods"


def gen(rng, i, tier):
    p = nsprop.gen(rng, i, tier, threads=0.1, boost=0.0, keep=0.25, plateau=0.25)
    p.pop("copymode", None)
    p["ensemble"] = rng.choice((4, 5, 8, 12, 20, 30, 60, 101)) if not p.get("threads") else rng.choice((4, 8, 20))
    p["step"] = rng.choice((1, 2, 4, 4, 7, 10))
    p["discard"] = max(1, p["ensemble"] * p["step"] // 100)
    p["maxiter"] = min(p["maxiter"], 40 if tier == "quick" else 120)
    p["miniter"] = min(p["miniter"], p["maxiter"])
    if rng.random() < 0.15:
        p["vanish"] = round(10 ** rng.uniform(0.5, 2.6))
        p["ensemble"] = min(p["ensemble"], 20)
        p["discard"] = max(1, p["ensemble"] * p["step"] // 100)
        p["maxiter"] = min(p["maxiter"], 20)
        p["miniter"] = min(p["miniter"], 20)
        p.pop("boost", None)
        p.pop("lik", None)
    return p


def shrink(p):
    for q in nsprop.shrink(p):
        q["ensemble"] = max(4, q["ensemble"])
        q["discard"] = max(1, q["ensemble"] * q["step"] // 100)
        if q != p:
            yield q
    if p.get("vanish"):
        yield {k: v for k, v in p.items() if k != "vanish"}
    if p["step"] > 1:
        q = dict(p, step=1)
        q["discard"] = max(1, q["ensemble"] // 100)
        yield q


def key(x):
    return (float(x.logL), np.asarray(x.allpars, dtype=float).tobytes())


class Watch:
    def __init__(self, ctx, w, D):
        self.ctx, self.w, self.D = ctx, w, D
        self.live = None
        self.nsmp = 0
        self.iter = 0

    def start(self):
        """the live points when the first exploration of the main loop starts"""

    def after(self):
        """called by the main loop after every iteration"""
        ctx, w, D = self.ctx, self.w, self.D
        ns = w.ns
        N = w.p["ensemble"]
        self.iter += 1
        live = [key(x) for x in ns.walkers]
        objs = {key(x): x for x in ns.walkers}
        it = "iteration %d: " % self.iter
        if len(live) != N:
            ctx.fail("size", it + "%d live points after the exchange, %d at the start" % (len(live), N))
        ids = [int(x.id) for x in ns.walkers]
        if len(set(ids)) != N:
            ctx.fail("ids", it + "identities of the live points are not distinct: %s" % ids)
        low = float(ns.lowLhood)
        if min(k[0] for k in live) < low or any(math.isnan(k[0]) for k in live):
            ctx.fail("below", it + "live point with logL %r below the threshold %r" % (min(k[0] for k in live), low))
        smp = list(ns.samples)
        new = smp[self.nsmp:]
        if len(new) != D:
            ctx.fail("discards", it + "%d samples recorded, %d is the given percentage" % (len(new), D))
        if float(new[-1].logL) != low:
            ctx.fail("threshold", it + "threshold %r is not the highest of those discarded, %r" % (low, float(new[-1].logL)))
        if self.live is not None:
            old = sorted(self.live)
            got = sorted(float(s.logL) for s in new)
            if got != [k[0] for k in old[:D]]:
                ctx.fail("lowest", it + "discarded %s, the lowest live points are %s" % (got, [k[0] for k in old[:D]]))
            stay = list(live)
            lost = []
            for k in old:
                if k in stay:
                    stay.remove(k)
                else:
                    lost.append(k)
            gone = sorted(key(s) for s in new)
            extra = [k for k in lost if k not in gone]
            if extra:
                ctx.fail("lost", it + "%d live points with logL %s (threshold %r) vanished without being recorded" % (len(extra), [k[0] for k in extra], low))
            back = [k for k in gone if k in stay and k[0] < low]
            if back:
                ctx.fail("back", it + "discarded point %r is a live point again" % back[0][0])
            fresh = stay
        else:
            fresh = live
        for k in fresh[:12]:
            x = objs[k]
            nsw.check_point(ctx, w, x.problem.model, x.allpars, x.logL, "added")
            nsw.check_domain(ctx, w, x.allpars, "added")
            ctx.count("points")
        if self.iter % 9 == 0:
            for pl in nsw.phantom_lists(ns):
                for x in pl:
                    nsw.check_point(ctx, w, x.problem.model, x.allpars, x.logL, "phantom")
                    nsw.check_domain(ctx, w, x.allpars, "phantom")
                    ctx.count("points")
        self.live, self.nsmp = live, len(smp)


def run(p, ctx):
    b = nsw.B()
    D = max(1, p["ensemble"] * p["step"] // 100)
    ctx.state("step", p["step"], p["ensemble"], D, sorted(p["engines"]))
    nsprop.setup(p, ctx)
    fn = nsprop.lik_fn(p["lik"], p["problem"]) if p.get("lik") else None
    box = dict(n=0, known=set())
    if p.get("vanish"):
        # from some evaluation on the likelihood vanishes everywhere but at the points known so far
        def fn(logL, problem, allpars, low):
            k = np.asarray(allpars, dtype=float).tobytes()
            if low is None:
                return logL
            if problem is not None:
                box["n"] += 1
            if box["n"] <= p["vanish"]:
                box["known"].add(k)
                return logL
            return logL if k in box["known"] else -math.inf
    kw = {}
    if fn is not None:
        def dist(e):
            e.constrain = (lambda logL, problem, allpars, low: fn(logL, problem, allpars, 0.0))
            return e
        kw["dist"] = dist
        ctx.fault("likelihood " + (p["lik"]["kind"] if p.get("lik") else "vanishes"))
    holder = {}

    def see(eng, k, low, it):
        x = holder["obs"]
        x.spy(eng, k, low, it)
        n = holder["n"] = holder.get("n", 0) + 1
        if n - holder.get("at", 0) > 400 * p["ensemble"] + 4000:
            ctx.fail_now("endless", "%d explorations since the last iteration" % (n - holder["at"]))
    spy = nsw.make_spy(ctx, see)(None, None)
    w = nsw.build(p, extra=[spy], cls=b.PhantomSampler, step=p["step"], **kw)
    w.lik = fn if not p.get("vanish") else None
    w.obs = holder["obs"] = obs.Observer(ctx, w, ("constraint", "logl", "domain", "alias"))
    w.obs.phantom_sampler = True
    if p.get("lik"):
        w.lik = lambda L, m, a, low: fn(L, None, a, 0.0)
    watch = Watch(ctx, w, D)

    def after():
        holder["at"] = holder.get("n", 0)
        watch.after()
    w.ns.restart = nsw.Probe(after)

    def go():
        try:
            w.evidence = w.ns.sample()
        except RuntimeError as e:
            if "valid starting" in str(e) and w.ns.iteration == 0 and (w.d["dist"] in ("poisson", "bernoulli") or p.get("vanish")):
                raise core.Expected("no valid start")
            raise
    if p.get("sched"):
        from .. import sched
        with sched.Scheduler(p["sched"], on_deadlock=lambda m: ctx.fail_now("stuck", m)) as s:
            ctx.sched = s
            go()
        ctx.fault("thread switches", s.switches)
        if s.live_threads():
            ctx.fail("threads.left", "threads left running: %s" % [t.name for t in s.live_threads()])
    else:
        go()
    ctx.count("draws", ctx.rng.draws)
    ctx.fault("extreme draws", ctx.rng.bugs)
    ctx.count("iterations", int(w.ns.iteration))
    ctx.count("evaluations", int(w.ns.distribution.ncalls))
    w.obs.final()
    N, I = p["ensemble"], int(w.ns.iteration)
    ctx.check(len(w.ns.samples) == I * D + N, "count", lambda: "%d samples after %d iterations of %d discards with %d live points" % (len(w.ns.samples), I, D, N))
    fin = sorted(key(x) for x in w.ns.walkers)
    got = sorted(key(s) for s in list(w.ns.samples)[-N:])
    ctx.check(fin == got, "final.points", "the last %d samples are not the final live points, each once" % N)
    p04.verify(ctx, w, D)
