"""Threaded exploration under seeded schedules: all guarantees at once."""
import math
from .. import nsprop, nsw, obs, sched
from ..nsprop import REAL, STUBS, ASSUMPTIONS, shrink
from .p04 import verify

RUNS = dict(quick=120, thorough=5000)
RULE = "one evaluation is one whole threaded nested sampling run under one schedule; distinct by the digest of results and schedule"
STATES = "distinct (thread pair, file:line) at which a preemption fell, and sets of live walkers"


def gen(rng, i, tier):
    p = nsprop.gen(rng, i, tier, threads=1.0, boost=0.15, keep=0.25, plateau=0.2)
    if rng.random() < 0.5:
        p["discard"] = max(2, p["discard"])
    p["discard"] = max(1, min(p["discard"], p["ensemble"] - 2))
    p["buggify"] = rng.choice((0.0, 0.0, 0.02))
    return p


def run(p, ctx):
    N, D = p["ensemble"], p.get("discard", 1)
    if not p.get("threads"):
        p = dict(p, threads=True)
    owner = {}
    seen = {}
    holder = {}
    import _thread

    def see(eng, kw, low, it):
        s = ctx.sched
        if s is None:
            return
        me = s.current.index
        k = (it, kw)
        if owner.setdefault(k, me) != me:
            ctx.fail_now("explored.twice", "iteration %d: walker %d is explored by threads %d and %d" % (it, kw, owner[k], me))
        seen.setdefault(it, set()).add(kw)

    def iter_end():
        s = ctx.sched
        if s is not None and s.live_threads():
            ctx.fail("threads.left", "threads still running after an iteration: %s" % [t.name for t in s.live_threads()])
    spy2 = nsw.make_spy(ctx, see)(None, None)
    rec = []
    eng = [nsw.counted(e, rec, seed=1 + k + p["seed"] % 1000000) for k, e in enumerate(p["engines"])]

    class Hook:
        pass
    kw = dict(engines=eng + [spy2])
    real_build = nsw.build

    def build(pp, extra=None, **k):
        k = dict(k)
        k["engines"] = eng + [spy2]
        w = real_build(pp, extra=extra, **k)
        w.ns.restart = nsw.Probe(iter_end)
        return w
    nsw.build = build
    try:
        w = nsprop.run(p, ctx, ("constraint", "logl", "domain", "ids", "alias"))
    finally:
        nsw.build = real_build
    ns = w.ns
    if p.get("sched"):
        for it, ks in seen.items():
            want = set(range(D)) if it else set(range(N))
            if ks != want:
                ctx.fail("explored", "iteration %d: walkers explored %s, should be %s" % (it, sorted(ks), sorted(want)))
        for t in (ctx.sched.trace or []):
            ctx.state(t.split(" ", 1)[1])
    ids = sorted(int(s.id) for s in ns.samples)
    if ids != list(range(len(ids))):
        pass
    if len(ns.samples) != int(ns.iteration) * D + N:
        ctx.fail("count", "%d samples after %d iterations" % (len(ns.samples), ns.iteration))
    if not p.get("maxsize") :
        verify(ctx, w, D)
    names = p["engines"]
    for e, nm in zip(eng, names):
        if names.count(nm) > 1:
            continue
        c = sum(1 for r in rec if r[0] == "call" and r[2] == nm)
        a = sum(1 for r in rec if r[0] == "accept" and r[2] == nm)
        rep = [int(x) for x in e.report]
        if (rep[e.NCALLS], rep[e.SUCCESS]) != (c, a):
            ctx.fail("report", "%s: report says %d calls and %d successes; made %d calls and %d accepted moves" % (nm, rep[e.NCALLS], rep[e.SUCCESS], c, a))
