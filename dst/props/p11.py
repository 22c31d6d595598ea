"""A sampler run again: after a completed run, after an error, with other settings."""
import json, math, copy
import numpy as np
from .. import nsprop, nsw, obs, sched, rngseam
from ..nsprop import ASSUMPTIONS, REAL
from .p04 import verify
from .p06 import stoprule
from .p09 import Bomb, bombed, kind, KINDS

RUNS = dict(quick=250, thorough=5000)
RULE = "one evaluation is a history of runs of one sampler; distinct by the digest of all runs"
STUBS = "the user's constraint when the history contains a failing run"
STATES = "distinct (history of run kinds, model kind)"
MIN_EVENTS = 2


def gen(rng, i, tier):
    p = nsprop.gen(rng, i, tier, special="safe", threads=0.12, boost=0.15, keep=0.3, plateau=0.0)
    p["maxiter"] = min(p["maxiter"], 25)
    p["miniter"] = min(p["miniter"], 8)
    ops = []
    for _ in range(rng.choice((2, 2, 3, 4))):
        o = dict(op="run")
        r = rng.random()
        if r < 0.25:
            o = dict(op="fail", at=int(10 ** rng.uniform(0, 2.8)), kind=rng.choice(KINDS))
        if rng.random() < 0.3:
            o["maxiter"] = rng.choice((8, 12, 30, 80))
        if rng.random() < 0.2:
            o["miniter"] = rng.choice((0, 2, 10))
        if rng.random() < 0.2:
            o["end"] = rng.choice((0.5, 2.0))
        if rng.random() < 0.2:
            o["tolerance"] = rng.choice((-12.0, -3.0, -2.0, -1.0))
        if rng.random() < 0.3 and not nsw.is_dyn(p["problem"]) and nsw.npars(p["problem"]) > 1 and not p.get("boost"):
            n = nsw.npars(p["problem"])
            o["keep"] = {str(rng.randrange(n)): round(rng.uniform(0.2, 0.8), 3)}
        if rng.random() < 0.15:
            o["discard"] = rng.choice((1, 2))
        ops.append(o)
    ops[-1]["op"] = "run"
    ops[-1].pop("kind", None)
    if rng.random() < 0.3:
        # runs which end by what they have found, followed by runs that look at it from their very start
        p["miniter"] = 0
        p["ensemble"] = min(p["ensemble"], 8)
        p["discard"] = 1
        p.pop("sched", None)
        p["threads"] = 0
        ops[0].update(op="run", maxiter=rng.choice((200, 300)), miniter=0, tolerance=rng.choice((-3.0, -1.0, -1.0)), end=50.0)
        for o in ops[1:]:
            o.pop("miniter", None)
    p["ops"] = ops
    return p


def shrink(p):
    if len(p["ops"]) > 1:
        for k in range(len(p["ops"]) - 1):
            q = copy.deepcopy(p)
            del q["ops"][k]
            yield q
    for k, o in enumerate(p["ops"]):
        for f in ("maxiter", "miniter", "end", "tolerance", "keep", "discard"):
            if f in o:
                q = copy.deepcopy(p)
                del q["ops"][k][f]
                yield q
    for q in nsprop.shrink(p):
        yield q


LISTS = ()


def generators(ns):
    out = []
    for o in [ns] + list(ns.engines) + [getattr(ns, "initialEngine", None)]:
        for k, v in sorted(getattr(o, "__dict__", {}).items()):
            if isinstance(v, np.random.RandomState) and not any(v is r for r in out):
                out.append(v)
    return out


def run(p, ctx):
    nsprop.setup(p, ctx)
    bomb = Bomb(dict(at=0, where="constrain", kind="ValueError"), ctx)
    bomb.on = False
    evals = [0]

    def dist(e):
        def con(logL, problem, allpars, low):
            evals[0] += 1
            bomb.tick()
            return logL
        e.constrain = con
        return e
    spied = {}
    holder = {}

    def see(eng, kw, low, it):
        holder["o"].spy(eng, kw, low, it)
    rec = []
    eng = [nsw.counted(e, rec, seed=11 + k) for k, e in enumerate(p["engines"])]
    spy = nsw.make_spy(ctx, see)(None, None)
    w = nsw.build(p, engines=eng + [spy], dist=dist)
    ns = w.ns
    keep0 = w.keep
    olds = []
    base = dict(maxiter=p["maxiter"], miniter=p["miniter"], end=ns.end, tolerance=ns.tolerance, discard=p.get("discard", 1))
    cur = dict(base)

    def same_as_fresh(o, gens, tag):
        """a sampler made anew, with the generators as they were before the last run, does the same"""
        rec2 = []
        eng2 = [nsw.counted(e, rec2, seed=11 + k) for k, e in enumerate(p["engines"])]
        w2 = nsw.build(p, engines=eng2 + [nsw.make_spy(ctx, lambda *a: None)(None, None)], dist=dist)
        n2 = w2.ns
        n2.maxIterations, n2.minimumIterations, n2.end, n2.tolerance, n2.discard = cur["maxiter"], cur["miniter"], cur["end"], cur["tolerance"], cur["discard"]
        n2.initialEngine = type(ns.initialEngine)(None, n2.distribution)       # else it is made, with a seed drawn, in the run
        for e, sz in zip(eng2, gens[2]):
            if sz is not None:          # a step size adapts itself
                e.size = sz
        for r, st in zip(generators(n2), gens[0]):
            r.set_state(st)
        rngseam.STATE.rng.setstate(gens[1])
        if "keep" in o:
            n2.sample(keep={int(k): v for k, v in o["keep"].items()})
        else:
            n2.sample()
        ctx.count("runs repeated by a fresh sampler")
        a = [(float(s.logL),) + tuple(np.asarray(s.allpars, dtype=float)) for s in ns.samples]
        b = [(float(s.logL),) + tuple(np.asarray(s.allpars, dtype=float)) for s in n2.samples]
        if a != b or float(ns.logZ) != float(n2.logZ):
            k = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            ctx.fail("not.fresh", tag + "with the same random numbers a fresh sampler finds other samples: from sample %d on (%d and %d samples; logZ %r and %r)"
                     % (k, len(a), len(b), float(ns.logZ), float(n2.logZ)))
        if [tuple(map(int, e.report)) for e in eng] != [tuple(map(int, e.report)) for e in eng2]:
            ctx.fail("not.fresh.report", tag + "engine counts differ from those of a fresh sampler")

    def all_runs():
        for n, o in enumerate(p["ops"]):
            tag = "run %d of the sampler: " % n
            for k in ("maxiter", "miniter", "end", "tolerance", "discard"):
                if k in o:
                    cur[k] = o[k]
            cur["discard"] = min(cur["discard"], p["ensemble"] - 1)
            ns.maxIterations, ns.minimumIterations, ns.end, ns.tolerance, ns.discard = cur["maxiter"], cur["miniter"], cur["end"], cur["tolerance"], cur["discard"]
            w.keep = {int(k): v for k, v in o["keep"].items()} if "keep" in o else keep0
            w.obs = holder["o"] = obs.Observer(ctx, w, ("constraint", "logl", "domain", "ids", "alias"))
            # the list of the sampler still is that of the previous run until this one has begun: watch the walkers only
            bomb.f = dict(at=o.get("at", 0), where="constrain", kind=o.get("kind", "ValueError"))
            bomb.n, bomb.fired, bomb.after, bomb.on = 0, 0, 0, o["op"] == "fail"
            del rec[:]
            gens = None
            if n == len(p["ops"]) - 1 and n > 0 and not p.get("sched"):
                gens = ([r.get_state() for r in generators(ns)], rngseam.STATE.rng.getstate(), [getattr(e, "size", None) for e in eng])
            try:
                if "keep" in o:
                    w.evidence = ns.sample(keep=dict(w.keep))
                else:
                    w.evidence = ns.sample()
            except BaseException as e:
                if type(e).__name__ == "Violation" or not bomb.fired:
                    raise
                ctx.ev("failed", o.get("kind"))
                ctx.fault("%s in constrain" % o["kind"])
                continue
            finally:
                bomb.on = False
            if bomb.fired:
                ctx.fail("swallowed", tag + "the failure was swallowed")
            ctx.count("runs")
            w.obs.final()
            D = cur["discard"]
            I = int(ns.iteration)
            if len(ns.samples) != I * D + p["ensemble"]:
                ctx.fail("count", tag + "%d samples after %d iterations" % (len(ns.samples), I))
            if I > max(cur["maxiter"] + 1, cur["miniter"]) or I < min(cur["miniter"], cur["maxiter"] + 1):
                ctx.fail("limits", tag + "%d iterations, limits are %d and %d" % (I, cur["miniter"], cur["maxiter"]))
            ids = [id(s) for s in ns.samples]
            for old in olds:
                if set(ids) & set(id(s) for s in old):
                    ctx.fail("old.samples", tag + "the sample list holds samples of an earlier run")
            sid = [int(s.id) for s in ns.samples]
            if sorted(sid) != list(range(len(sid))):
                ctx.fail("ids", tag + "identities of the samples are not consecutive: %s ..." % sid[:10])
            verify(ctx, w, D, tag=tag)
            stoprule(ctx, ns, [float(s.logL) for s in ns.samples], p["ensemble"], D, cur["miniter"], cur["maxiter"], tag)
            for e, nm in zip(eng, p["engines"]):
                if p["engines"].count(nm) > 1:
                    continue
                c = sum(1 for r in rec if r[0] == "call" and r[2] == nm)
                a = sum(1 for r in rec if r[0] == "accept" and r[2] == nm)
                if (int(e.report[e.NCALLS]), int(e.report[e.SUCCESS])) != (c, a):
                    ctx.fail("report", tag + "%s reports %d calls and %d successes; this run made %d and %d" %
                             (nm, e.report[e.NCALLS], e.report[e.SUCCESS], c, a))
            if gens is not None:
                same_as_fresh(o, gens, tag)
            keepsnap = list(ns.samples)
            olds.append(keepsnap)
    ctx.state([o["op"] for o in p["ops"]], p["problem"]["kind"])
    if p.get("sched"):
        with sched.Scheduler(p["sched"], on_deadlock=lambda m: ctx.fail_now("stuck", m)) as s:
            ctx.sched = s
            all_runs()
        ctx.fault("thread switches", s.switches)
    else:
        all_runs()
